from symx.api import *
from symx import dates as D
from symx.dates import date, moved, rolled
from frm.enums.utils import PeriodFreq as F, RollConv as R, Stub, DayRoll
from frm.utils.schedule import make_schedule, generate_date_schedule

D.abstract()
STEP = {F.MONTHLY: (1, 0), F.QUARTERLY: (3, 0), F.SEMIANNUAL: (6, 0), F.ANNUAL: (12, 0), F.WEEKLY: (0, 7), F._28_DAYS: (0, 28), F.DAILY: (0, 1), F.ZERO_COUPON: (24, 0)}
ROLLS = [R.UNADJUSTED, R.FOLLOWING, R.PRECEDING, R.MODIFIED_FOLLOWING, R.MODIFIED_PRECEDING]
SOME = [R.MODIFIED_FOLLOWING, R.PRECEDING]


def steps(c, freq, t, k, day=None):
    """k frequency steps from t, moved to the roll day of its month"""
    m, d = STEP[freq]
    u = moved(c, t, m * k, d * k)
    if day is None:
        return u
    L = u.days_in_month
    want = L if day == DayRoll.EOM else ite(L < day.value, L, day.value)
    return u.on(want) if c.sym else u.replace(day=want)


def near(c, names=('e', 'f', 'l')):
    """replay candidates: the other dates a whole number of months (sometimes a few days more or less) after the start"""
    def hint(env, rng):
        if rng.random() < 0.5:
            env['sd'] = rng.choice((1, 15, 28, 30, 31))
        m = env['sy'] * 12 + env['sm'] - 1
        step = rng.choice((1, 1, 3, 6, 12))
        for k in ('f', 'l', 'e'):
            if k + 'y' in env:
                m += step * rng.choice((0, 1, 1, 1, 2, 3))
                env[k + 'y'], env[k + 'm'] = m // 12, m % 12 + 1
                if rng.random() < 0.7:
                    env[k + 'd'] = max(1, min(31, env['sd'] + rng.choice((0, 0, 0, 1, 2, -1, -2, 7, 14))))
        for k in env:
            if k in ('hy', 'gy'):
                q = rng.choice([x for x in ('s', 'e', 'f', 'l') if x + 'y' in env])
                p = k[:-1]
                env[p + 'y'], env[p + 'm'], env[p + 'd'] = env[q + 'y'], env[q + 'm'], max(1, min(31, env[q + 'd'] + rng.choice((-3, -1, 0, 0, 1, 3))))
    c.hint(hint)


def lt(c, a, b):
    return D.N._b(D.ts(a) < D.ts(b)) if c.sym else a < b


def le(c, a, b):
    return D.N._b(D.ts(a) <= D.ts(b)) if c.sym else a <= b


def same(c, a, b):
    return D.N._b(D.ts(a) == D.ts(b)) if c.sym else a == b


def term(c, freq, periods):
    """any start and end with at most the given number of periods between them"""
    near(c)
    s, e = date(c, 's', 1995, 2100), date(c, 'e', 1995, 2110)
    c.assume(s < e)
    c.assume(e <= steps(c, freq, s, periods))
    return s, e


def any_calendar(c, holidays=2):
    """weekends and two holidays anywhere"""
    return D.calendar(c, [date(c, h, 1995, 2110) for h in 'hg'[:holidays]])


def user(c, t, roll, cal, flag):
    return rolled(c, t, roll.value, cal) if flag else t


def make(c, s, e, freq, roll, cal, **k):
    return c.no_raise('schedule', make_schedule, s, e, freq, roll_conv=roll, cal=cal, **k)


def apart(c, dates):
    """user dates that are rolled must not fall in one stretch of closed days"""
    for a, b in zip(dates, dates[1:]):
        c.assume(lt(c, a, b))


def tiles(c, df, first, last):
    s, e = list(df['period_start']), list(df['period_end'])
    c.true('one row per period', len(s) == len(e) and len(s) >= 1)
    D.same(c, 'starts at the effective date', s[0], first)
    D.same(c, 'ends at the maturity date', e[-1], last)
    for i in range(len(s)):
        c.true('periods have positive length', lt(c, s[i], e[i]))
        if i:
            D.same(c, 'neither gap nor overlap', s[i], e[i - 1])


def plain(c, freq, periods, rolls, flags=(False, True), **k):
    roll, flag = c.choice('roll', rolls), c.choice('rolled', list(flags))
    s, e = term(c, freq, periods)
    cal = any_calendar(c)
    first, last = user(c, s, roll, cal, flag), user(c, e, roll, cal, flag)
    if flag:
        apart(c, [first, last])
    tiles(c, make(c, s, e, freq, roll, cal, roll_user_specified_dates=flag, **k), first, last)


def monthly(c): plain(c, F.MONTHLY, 3, ROLLS)
def quarterly(c): plain(c, F.QUARTERLY, 3, SOME)
def semiannual(c): plain(c, F.SEMIANNUAL, 2, SOME)
def annual(c): plain(c, F.ANNUAL, 2, SOME)
def weekly(c): plain(c, F.WEEKLY, 3, SOME)
def days28(c): plain(c, F._28_DAYS, 3, SOME)
def daily(c): plain(c, F.DAILY, 4, ROLLS)
def single(c): plain(c, F.ZERO_COUPON, 1, ROLLS)


def rolldays(c):
    day = c.choice('day', [DayRoll._1, DayRoll._15, DayRoll._30, DayRoll.EOM])
    plain(c, c.choice('freq', [F.MONTHLY, F.QUARTERLY]), 2, SOME, flags=(False,), day_roll=day)


STUBS = [dict(first_stub=Stub.LONG), dict(first_stub=Stub.SHORT), dict(last_stub=Stub.SHORT), dict(last_stub=Stub.LONG)]


def stubs(c):
    plain(c, F.QUARTERLY, 3, SOME, **c.choice('stubs', STUBS))


def stubs_monthly(c):
    plain(c, F.MONTHLY, 3, SOME[:1], **c.choice('stubs', STUBS))


def given(c, freq, periods, rolls, names, flags=(False, True), **k):
    roll, flag = c.choice('roll', rolls), c.choice('rolled', list(flags))
    s, e = term(c, freq, periods)
    cal = any_calendar(c)
    mid = {n: date(c, q, 1995, 2110) for n, q in (('first_period_end', 'f'), ('last_period_start', 'l')) if n in names}
    seq = [s] + list(mid.values()) + [e]
    for a, b in zip(seq, seq[1:]):
        c.assume(a < b)
    seq2 = [user(c, t, roll, cal, flag) for t in seq]
    if flag:
        apart(c, seq2)
    df = make(c, s, e, freq, roll, cal, roll_user_specified_dates=flag, **mid, **k)
    tiles(c, df, seq2[0], seq2[-1])
    if 'first_period_end' in mid:
        D.same(c, 'the first period ends where asked', df['period_end'].iloc[0], seq2[1])
    if 'last_period_start' in mid:
        D.same(c, 'the last period starts where asked', df['period_start'].iloc[-1], seq2[-2])


def first_end(c): given(c, F.QUARTERLY, 2, SOME, ['first_period_end'])
def last_start(c): given(c, F.QUARTERLY, 2, SOME, ['last_period_start'])
def both(c): given(c, F.QUARTERLY, 2, SOME[:1], ['first_period_end', 'last_period_start'])


def first_end_stub(c): given(c, F.QUARTERLY, 2, SOME[:1], ['first_period_end'], (False,), last_stub=c.choice('stub', [Stub.LONG, Stub.SHORT]))
def last_start_stub(c): given(c, F.QUARTERLY, 2, SOME[:1], ['last_period_start'], (False,), first_stub=c.choice('stub', [Stub.LONG, Stub.SHORT]))


def dates_refused(c):
    """a start that is not before the end is refused"""
    near(c)
    s, e = date(c, 's', 1995, 2100), date(c, 'e', 1995, 2110)
    c.assume(e <= s)
    freq = c.choice('freq', [F.QUARTERLY, F.ZERO_COUPON])
    refused = False
    try:
        c.call(make_schedule, s, e, freq)
    except ValueError:
        refused = True
    c.true('refused', refused)


H = [monthly, quarterly, semiannual, annual, weekly, days28, daily, single, rolldays, stubs, stubs_monthly, first_end, last_start, both, first_end_stub, last_start_stub, dates_refused]

if __name__ == '__main__':
    run('C03', [(h.__name__, h) for h in H], patch=D.patch,
        bounds=dict(dates='every start and end date of the years 1995 to 2110, at most 2 to 4 periods apart (by frequency)',
                    frequencies='daily, weekly, 28 days, monthly, quarterly, semiannual, annual, zero coupon',
                    rolls='all five conventions for monthly, daily and zero coupon; modified following and preceding for the others; user dates rolled or not',
                    calendar='every calendar whose closed stretches last at most 4 days', stubs='default, short and long, first and last; first_period_end and last_period_start anywhere between start and end, alone, together, or with a short or long stub at the other end'),
        assumptions=['pandas timestamps are replaced by (year, month, day) integer terms; the day number of a month start is an unknown constrained by the month lengths',
                     'numpy business-day rolling is an unknown function that is monotone, moves by at most 4 days in the direction of its convention and leaves business days alone',
                     'user dates that are to be rolled do not fall into one closed stretch'])
