import contextlib
from symx.api import *
import pandas as pd
import frm.utils
from checks.C09 import build, table, ask, T, DAY, B, CF, LINEAR
from checks.C11 import applied, rate
from frm.enums import RFRFixingCalcMethod as R, TermRate, PeriodFreq as F, ExchangeNotionals as X, PayRcv, TimingConvention as TC
from frm.instruments.leg import FixedLeg, FloatTermLeg, FloatRFRLeg, ZerocouponLeg
from frm.term_structures.historical_swap_index_fixings import RFRFixings, TermFixings
from frm.term_structures.swap_curve import RFRSwapCurve, TermSwapCurve
from frm.utils import CouponSchedule, year_frac

START, END = '2023-09-20', '2024-09-20'
CAL = np.busdaycalendar(holidays=['2023-12-25', '2023-12-26', '2024-01-01', '2024-06-20'])
VALUE = ['2023-09-20', '2023-09-05', '2023-12-20', '2023-12-21', '2024-02-14', '2024-06-19', '2024-06-21', '2024-09-18']


@contextlib.contextmanager
def valued(day, include=False, limit=False):
    """the library's value date and value-date settings"""
    u = frm.utils
    old = u.VALUE_DATE, u.INCLUDE_PAYMENTS_ON_VALUE_DATE_IN_NPV, u.LIMIT_ACCRUED_INTEREST_TO_UNSETTLED_CASHFLOW
    u.VALUE_DATE, u.INCLUDE_PAYMENTS_ON_VALUE_DATE_IN_NPV, u.LIMIT_ACCRUED_INTEREST_TO_UNSETTLED_CASHFLOW = T(day), include, limit
    try:
        yield T(day)
    finally:
        u.VALUE_DATE, u.INCLUDE_PAYMENTS_ON_VALUE_DATE_IN_NPV, u.LIMIT_ACCRUED_INTEREST_TO_UNSETTLED_CASHFLOW = old


def curve(c, day, basis=B.ACT_365, name='df'):
    d0 = T(day)
    dates = [d0 + pd.DateOffset(days=k) for k in (60, 200, 450)]
    return build(c, d0, table(c, 'date', dates, 'discount_factor', [c.pos(f'{name}{i}', typ=(0.8, 1.02)) for i in range(3)]), day_count_basis=basis,
                 interp_method=LINEAR, cal=CAL)


def amounts(c, name, kind, lo, hi, n=4):
    """one figure, or one per period"""
    if kind == 'one':
        v = c.real(name, lo, hi)
        return v, [v] * n
    vs = [c.real(f'{name}{i}', lo, hi) for i in range(n)]
    return vec(*vs), vs


def schedule(c, exchange=X.NEITHER, notional=100, freq=F.QUARTERLY, start=START, end=END, **k):
    return c.no_raise('schedule', CouponSchedule, T(start), T(end), freq, cal=CAL, notional_amount=notional, exchange_notionals=exchange, **k)


def flows(sch, ns, coupon, exchange, delays=(0, 0), timing=TC.IN_ARREARS):
    """(date, amount) of each notional and each coupon payment, receive side, restated from the period dates"""
    ps = periods(sch)
    pay = lambda d, delay: T(np.busday_offset(np.datetime64(d.date()), delay, roll='modifiedfollowing', busdaycal=CAL))
    out = []
    if exchange in (X.START, X.BOTH):
        out.append(('notional', ps[0][0], -ns[0]))
    for i, (s, e) in enumerate(ps):
        drop = ns[i] - ns[i + 1] if i + 1 < len(ps) else (ns[i] if exchange in (X.END, X.BOTH) else 0)
        out.append(('notional', pay(e, delays[0]), drop))
        out.append(('coupon', pay(e if timing == TC.IN_ARREARS else s, delays[1]), coupon(i, s, e)))
    return out


def periods(sch):
    df = sch.df[sch.df['period_start'].notnull()]
    return list(zip(df['period_start'], df['period_end']))


def alive(d, vd, include):
    return d >= vd if include else d > vd


def worth(c, zc, fs, vd, include=False):
    pv = 0
    for _, d, a in fs:
        if alive(d, vd, include):
            pv = pv + a * (ask(c, 'factor', zc.get_discount_factors, d) if d != zc.curve_date else 1)
    return pv


def pv(c, leg):
    return ask(c, 'value', leg.calc_dirty_pv)


SIDE = [(PayRcv.RCV, 1), (PayRcv.PAY, -1)]


def fixed(c):
    """notionals, exchanges and the value date"""
    vd, include = c.choice('value date', VALUE), c.choice('on value date', [False, True])
    ex, (side, sign) = c.choice('exchange', [X.NEITHER, X.START, X.END, X.BOTH]), c.choice('side', SIDE)
    kind = c.choice('notional', ['one', 'each'])
    n, ns = amounts(c, 'n', kind, 1, 1000)
    r, rs = amounts(c, 'r', 'each' if kind == 'one' else 'one', -0.2, 1)
    with valued(vd, include) as v:
        zc, sch = curve(c, vd), schedule(c, ex, n)
        leg = c.no_raise('leg', FixedLeg, schedule=sch, discount_curve=zc, pay_rcv=side, day_count_basis=B.ACT_365, fixed_rate=r)
        fs = flows(sch, ns, lambda i, s, e: ns[i] * rs[i] * year_frac(s, e, B.ACT_365), ex)
        c.eq('value', pv(c, leg), sign * worth(c, zc, fs, v, include))


def conventions(c):
    """day counts, payment delays and payments in advance"""
    vd, basis = '2023-12-28', c.choice('basis', list(B))
    timing, delays = c.choice('timing', [TC.IN_ARREARS, TC.IN_ADVANCE]), c.choice('delays', [(0, 2), (2, 0), (5, 7)])
    side, sign = c.choice('side', SIDE)
    n, ns = amounts(c, 'n', 'one', 1, 1000)
    r, rs = amounts(c, 'r', 'one', -0.2, 1)
    with valued(vd) as v:
        zc, sch = curve(c, vd), schedule(c, X.BOTH, n, notional_payment_delay=delays[0], coupon_payment_delay=delays[1], coupon_payment_timing=timing)
        leg = c.no_raise('leg', FixedLeg, schedule=sch, discount_curve=zc, pay_rcv=side, day_count_basis=basis, fixed_rate=r)
        fs = flows(sch, ns, lambda i, s, e: ns[i] * rs[i] * year_frac(s, e, basis), X.BOTH, delays, timing)
        c.eq('value', pv(c, leg), sign * worth(c, zc, fs, v))


def zero_coupon(c):
    """coupons of a zero-coupon leg compound the rate over the period"""
    vd, freq = c.choice('value date', ['2023-09-05', '2024-02-14']), c.choice('compounding', list(CF))
    ex, (side, sign) = c.choice('exchange', [X.NEITHER, X.BOTH]), c.choice('side', SIDE)
    n, ns = amounts(c, 'n', 'one', 1, 1000, 2)
    z, zs = amounts(c, 'z', 'one', -0.2, 1, 2)
    with valued(vd) as v:
        zc, sch = curve(c, vd), schedule(c, ex, n, F.SEMIANNUAL)
        leg = c.no_raise('leg', ZerocouponLeg, schedule=sch, discount_curve=zc, pay_rcv=side, day_count_basis=B._30_360, zero_rate=z, compounding_freq=freq)
        grow = lambda s, e: 1 / freq.calc_discount_factor_from_zero_rate(year_frac(s, e, B._30_360), z)
        fs = flows(sch, ns, lambda i, s, e: ns[i] * (grow(s, e) - 1), ex)
        c.eq('value', pv(c, leg), sign * worth(c, zc, fs, v))


def fixings(c, until, basis):
    ds = [d for d in pd.date_range('2023-09-18', until - DAY) if d.weekday() < 5]
    weeks = sorted({d.isocalendar()[:2] for d in ds})
    level = {w: c.real(f'f{w[1]}', -0.05, 0.2) for w in weeks}             # one symbol a week
    fx = {d: level[d.isocalendar()[:2]] for d in ds}
    return fx, pd.DataFrame({'date': ds, 'fixing': c.series([fx[d] for d in ds])})


def floating(c):
    """coupons of floating legs take the index of each period plus the spread"""
    cls, index, hist, kinds = c.choice('leg', [(FloatRFRLeg, RFRSwapCurve, RFRFixings, [R.DAILY_COMPOUNDED, R.WEIGHTED_AVERAGE]),
                                               (FloatTermLeg, TermSwapCurve, TermFixings, [TermRate.SIMPLE, TermRate.CONTINUOUS])])
    vd, kind = c.choice('value date', ['2023-12-20', '2024-01-17', '2024-03-28']), c.choice('rate', kinds)
    ex, (side, sign) = c.choice('exchange', [X.NEITHER, X.BOTH]), c.choice('side', SIDE)
    n, ns = amounts(c, 'n', 'one', 1, 1000)
    w, ws = amounts(c, 'w', 'each', -0.05, 0.1)
    with valued(vd) as v:
        zc, sch = curve(c, vd), schedule(c, ex, n)
        fx, df = fixings(c, v, B.ACT_365)
        idx = index(zero_curve=curve(c, vd, name='ix'), historical_fixings=hist(fixings=df, day_count_basis=B.ACT_365))
        k = dict(term_swap_curve=idx) if cls is FloatTermLeg else dict(rfr_swap_curve=idx)
        leg = c.no_raise('leg', cls, schedule=sch, discount_curve=zc, pay_rcv=side, day_count_basis=B.ACT_365, spread=w, forward_rate_type=kind, **k)
        ps = periods(sch)
        a = (F.QUARTERLY,) if cls is FloatTermLeg else ()
        fix = list(ask(c, 'index', idx.get_fixings, pd.DatetimeIndex([p[0] for p in ps]), pd.DatetimeIndex([p[1] for p in ps]), *a, cpn_calc_method=kind))
        fs = flows(sch, ns, lambda i, s, e: ns[i] * (fix[i] + ws[i]) * year_frac(s, e, B.ACT_365), ex)
        c.eq('value', pv(c, leg), sign * worth(c, zc, fs, v))


def opposite(c):
    """the pay leg is worth exactly minus the receive leg"""
    vd, ex = c.choice('value date', ['2023-09-05', '2024-02-14']), c.choice('exchange', [X.NEITHER, X.BOTH])
    n, ns = amounts(c, 'n', 'each', 1, 1000)
    r, rs = amounts(c, 'r', 'each', -0.2, 1)
    cls, key = c.choice('leg', [(FixedLeg, 'fixed_rate'), (ZerocouponLeg, 'zero_rate')])
    with valued(vd):
        zc = curve(c, vd)
        a, b = [pv(c, c.no_raise('leg', cls, schedule=schedule(c, ex, n), discount_curve=zc, pay_rcv=s, **{key: r})) for s in (PayRcv.PAY, PayRcv.RCV)]
        c.eq('opposite values', a + b, 0)


def accrued(c):
    """accrued interest: the current coupon so far plus coupons earned and not yet paid; clean value is dirty value less that"""
    cls, key = c.choice('leg', [(FixedLeg, 'fixed_rate'), (ZerocouponLeg, 'zero_rate')])
    vd, delay, include = c.choice('value date', ['2023-09-20', '2023-10-11', '2023-12-20', '2023-12-22', '2024-06-24']), c.choice('delay', [0, 3]), c.choice('on value date', [False, True])
    side, sign = c.choice('side', SIDE)
    n, ns = amounts(c, 'n', 'one', 1, 1000)
    r, rs = amounts(c, 'r', 'one', -0.2, 1)
    basis = B.ACT_365
    with valued(vd, include) as v:
        zc, sch = curve(c, vd), schedule(c, X.BOTH, n, coupon_payment_delay=delay)
        k = dict(compounding_freq=CF.SIMPLE) if cls is ZerocouponLeg else {}
        leg = c.no_raise('leg', cls, schedule=sch, discount_curve=zc, pay_rcv=side, day_count_basis=basis, **{key: r}, **k)
        dirty = pv(c, leg)
        acc = ask(c, 'accrued', leg.calc_accrued_interest)
        clean = ask(c, 'clean', leg.calc_clean_pv)
        want = 0
        for (s, e), (d, a) in zip(periods(sch), [(d, a) for kind, d, a in flows(sch, ns, lambda i, s, e: n * r * year_frac(s, e, basis), X.BOTH, (0, delay)) if kind == 'coupon']):
            if s <= v < e:
                want = want + n * r * year_frac(s, v, basis)
            elif e <= v and alive(d, v, include):
                want = want + a
        c.eq('accrued', acc, sign * want)
        c.eq('clean', clean, dirty - sign * want)


def split(c):
    """current plus non-current value is the whole value, and the payment buckets hold every remaining payment once"""
    vd, include = c.choice('value date', ['2023-09-05', '2023-12-20', '2024-02-14', '2023-09-20']), c.choice('on value date', [False, True])
    side, sign = c.choice('side', SIDE)
    n, ns = amounts(c, 'n', 'one', 1, 1000, 5)
    r, rs = amounts(c, 'r', 'one', -0.2, 1, 5)
    with valued(vd, include) as v:
        zc = build(c, v, table(c, 'date', [v + pd.DateOffset(years=6)], 'discount_factor', [c.pos('df')]), day_count_basis=B.ACT_365, interp_method=LINEAR)
        sch = schedule(c, X.BOTH, n, F.ANNUAL, end='2028-09-20')
        leg = c.no_raise('leg', FixedLeg, schedule=sch, discount_curve=zc, pay_rcv=side, day_count_basis=B.ACT_365, fixed_rate=r)
        cur, non = ask(c, 'split', leg.get_current_non_current_split)
        fs = flows(sch, ns, lambda i, s, e: ns[i] * rs[i] * year_frac(s, e, B.ACT_365), X.BOTH)
        near = v + pd.DateOffset(years=1)
        soon = [f for f in fs if (f[1] <= near if include else f[1] < near)]
        c.eq('current', cur, sign * worth(c, zc, soon, v, include))
        c.eq('non-current', non, sign * worth(c, zc, [f for f in fs if f not in soon], v, include))
        b = ask(c, 'buckets', leg.bucket_payments, buckets=(1, 2, 4))
        lo = v
        for i, years in enumerate((1, 2, 4, None)):
            hi = v + pd.DateOffset(years=years) if years else T('2200-01-01')
            for kind in ('notional', 'coupon'):
                tot = sum((a for k, d, a in fs if k == kind and (alive(d, v, include) if i == 0 else d >= lo) and d < hi), 0)
                c.eq('bucket', b[kind + '_payment'].iloc[i], sign * tot)
            lo = hi


def refused(c):
    """a rate vector that is not one rate per period, or a missing curve, is refused"""
    case = c.choice('case', ['too many', 'too few', 'no curve'])
    r = vec(*[c.real(f'r{i}') for i in range({'too many': 5, 'too few': 3, 'no curve': 4}[case])])
    with valued('2023-09-05'):
        sch, zc = schedule(c, X.BOTH, 100), curve(c, '2023-09-05')
        if case == 'no curve':
            leg = c.no_raise('leg', FixedLeg, schedule=sch, discount_curve=None, fixed_rate=r)
            c.raises('refused', frm.utils.MarketDataNotAvailableError, leg.calc_dirty_pv)
        else:
            c.raises('refused', ValueError, lambda: FixedLeg(schedule=sch, discount_curve=zc, fixed_rate=r))


H = [fixed, conventions, zero_coupon, floating, opposite, accrued, split, refused]

if __name__ == '__main__':
    run('C29', [(h.__name__, h) for h in H], bounds='one-year quarterly, two-period and five-year annual schedules on a calendar with holidays; notionals 1 to 1000 (one or one per period), rates -20% to 100% (one or one per period), positive curve levels; value dates on, between and next to period and payment dates, payments on the value date included or not', assumptions=ASSUME_REAL)
