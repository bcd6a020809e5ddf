from symx.api import *
from symx import dates as D
from symx.dates import date, rolled
from C03 import F, R, SOME, ROLLS, term, any_calendar, near
from frm.enums.utils import TimingConvention as T, ExchangeNotionals as X, DayCountBasis as B
from frm.utils.schedule import BaseSchedule, NotionalSchedule, CouponSchedule


def payments(c):
    roll, timing, delay = c.choice('roll', SOME), c.choice('timing', [T.IN_ARREARS, T.IN_ADVANCE]), c.choice('delay', [0, 2])
    s, e = term(c, F.QUARTERLY, 2)
    cal = any_calendar(c)
    sch = c.no_raise('schedule', BaseSchedule, s, e, F.QUARTERLY, roll_conv=roll, cal=cal)
    c.no_raise('payment', sch.add_payment_dates, delay, timing)
    base = list(sch.df['period_end' if timing == T.IN_ARREARS else 'period_start'])
    got = list(sch.df['payment_date'])
    c.true('a payment date per period', len(got) == len(base))
    for g, b in zip(got, base):
        D.same(c, 'payment date', g, rolled(c, b, roll.value, cal, delay))


def payments_unadjusted(c):
    """without a roll convention the dates stay, and a delay counts business days from the date itself"""
    timing = c.choice('timing', [T.IN_ARREARS, T.IN_ADVANCE])
    s, e = term(c, F.QUARTERLY, 2)
    cal = any_calendar(c)
    sch = c.no_raise('schedule', BaseSchedule, s, e, F.QUARTERLY, roll_conv=R.UNADJUSTED, cal=cal)
    c.no_raise('payment', sch.add_payment_dates, 0, timing, 'when')
    for g, b in zip(list(sch.df['when']), list(sch.df['period_end' if timing == T.IN_ARREARS else 'period_start'])):
        D.same(c, 'payment date', g, b)


def three_periods(c):
    """a term of exactly three quarters from any date (day 1 to 28)"""
    s = date(c, 's', 1995, 2100)
    c.assume(s.day <= 28)
    return s, D.moved(c, s, 9)


def amounts(c, kind):
    if kind == 'one amount':
        n = c.real('n', 1, 1000)
        return n, [n] * 3
    ns = [c.real(f'n{i}', 1, 1000) for i in range(3)]
    return vec(*ns), ns


EXCHANGES = [X.NEITHER, X.START, X.END, X.BOTH]


def exchanges(c, kinds, vias):
    """columns of the notional schedule, row by row"""
    kind, ex = c.choice('kind', kinds), c.choice('exchange', EXCHANGES)
    roll, delay, timing = R.MODIFIED_FOLLOWING, c.choice('delay', [0, 2]), c.choice('timing', [T.IN_ARREARS, T.IN_ADVANCE])
    via = c.choice('via', vias)
    s, e = three_periods(c)
    cal = any_calendar(c)
    arg, ns = amounts(c, kind)
    k = dict(roll_conv=roll, cal=cal, notional_amount=arg, exchange_notionals=ex, notional_payment_delay=delay, notional_payment_timing=timing)
    first = None
    if via == 'given first date':
        first = date(c, 'x', 1995, 2100)
        k['initial_notional_exchange_date'] = first
    cls = CouponSchedule if via == 'coupon' else NotionalSchedule
    sch = c.no_raise('schedule', cls, s, e, F.QUARTERLY, **k)
    df = sch.df
    rows = len(df)
    start = ex in (X.START, X.BOTH)
    c.true('a row per period, and one for the initial exchange', rows == 3 + (1 if start else 0))
    if rows != 3 + (1 if start else 0):
        raise Stop()
    pay, when, notional = list(df['notional_payment']), list(df['notional_payment_date']), list(df['notional'])
    if start:
        c.eq('initial exchange', pay[0], -ns[0])
        c.eq('nothing is outstanding before it', notional[0], 0)
        D.same(c, 'initial exchange date', when[0], s if first is None else first)
        pay, when, notional = pay[1:], when[1:], notional[1:]
        df = df.iloc[1:]
    for i in range(3):
        c.eq('notional of the period', notional[i], ns[i])
        last = i == 2
        drop = ns[i] if last else ns[i] - ns[i + 1]
        c.eq('repayment', pay[i], (drop if ex in (X.END, X.BOTH) else 0) if last else drop)
        base = list(df['period_end' if timing == T.IN_ARREARS else 'period_start'])[i]
        D.same(c, 'repayment date', when[i], rolled(c, base, roll.value, cal, delay))
    if ex == X.BOTH:
        c.eq('all principal is returned', sum(list(sch.df['notional_payment'])), 0)


def one_amount(c): exchanges(c, ['one amount'], ['notional'])
def per_period(c): exchanges(c, ['per period'], ['notional'])
def variants(c): exchanges(c, ['per period'], ['coupon', 'given first date'])


def wrong_length(c):
    """a notional vector that is not one amount per period is refused"""
    s, e = three_periods(c)
    near(c)
    n = c.choice('length', [2, 4])
    refused = False
    try:
        c.call(NotionalSchedule, s, e, F.QUARTERLY, cal=any_calendar(c), notional_amount=vec(*[c.real(f'n{i}', 1, 1000) for i in range(n)]))
    except ValueError:
        refused = True
    c.true('refused', refused)


def coupons(c):
    """coupon payment dates, day counts and year fractions per period; none on the initial exchange row"""
    roll, timing, delay = R.MODIFIED_FOLLOWING, c.choice('timing', [T.IN_ARREARS, T.IN_ADVANCE]), c.choice('delay', [0, 2])
    ex, basis = c.choice('exchange', [X.NEITHER, X.BOTH]), c.choice('basis', [B.ACT_360, B.ACT_365, B._30E_360])
    s, e = three_periods(c)
    cal = any_calendar(c)
    sch = c.no_raise('schedule', CouponSchedule, s, e, F.QUARTERLY, roll_conv=roll, cal=cal, exchange_notionals=ex, coupon_payment_delay=delay, coupon_payment_timing=timing)
    c.no_raise('day count', sch.add_period_daycount, basis)
    c.no_raise('year fraction', sch.add_period_yearfrac, basis)
    df = sch.df
    k = 1 if ex == X.BOTH else 0
    starts, ends, when = list(df['period_start']), list(df['period_end']), list(df['coupon_payment_date'])
    days, years = list(df['period_daycount']), list(df['period_yearfrac'])
    for i in range(k, len(df)):
        D.same(c, 'coupon date', when[i], rolled(c, ends[i] if timing == T.IN_ARREARS else starts[i], roll.value, cal, delay))
        a, b = starts[i], ends[i]
        if basis == B._30E_360:
            n = 360 * (b.year - a.year) + 30 * (b.month - a.month) + ite(b.day == 31, 30, b.day) - ite(a.day == 31, 30, a.day)
        else:
            n = D.num(b) - D.num(a)
        c.eq('days of the period', days[i], n)
        c.eq('years of the period', years[i], n / (365 if basis == B.ACT_365 else 360))
    c.true('rows', len(df) == 3 + k)


H = [payments, payments_unadjusted, one_amount, per_period, variants, wrong_length, coupons]
if __name__ == '__main__':
    run('C37', [(h.__name__, h) for h in H], patch=D.patch,
        bounds=dict(dates='payment dates: every start and end of 1995 to 2110 up to two quarters apart; exchanges and coupons: three quarters from any day 1 to 28',
                    amounts='notional 1 to 1000, one amount or one per period', delays='0 and 2 business days, in arrears and in advance',
                    calendar='every calendar whose closed stretches last at most 4 days', exchanges='neither, start, end, both; default and given first exchange date'),
        assumptions=['pandas timestamps are replaced by (year, month, day) integer terms; the day number of a month start is an unknown constrained by the month lengths',
                     'numpy business-day rolling is an unknown function that is monotone, moves by a bounded number of days in the direction of its convention and leaves business days alone'])
