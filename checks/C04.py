from symx.api import *
from symx import dates as D
from symx.dates import date, rolled
from C03 import F, R, Stub, DayRoll, SOME, ROLLS, STEP, steps, term, any_calendar, make, near, lt, le, same
from frm.utils.schedule import generate_date_schedule


def grid(c, cal, freq, roll, anchor, sign, day=None):
    """k -> k frequency steps from the anchor: the roll day of the month, before and after the business-day roll"""
    memo = {}

    def g(k):
        if k not in memo:
            t = steps(c, freq, anchor, sign * k, day)
            memo[k] = t, rolled(c, t, roll.value, cal)
        return memo[k]
    return g


def inner(df):
    """interior boundaries in order"""
    return list(df['period_start'])[1:]


def regular(c, bounds, g, first=1):
    """boundaries (counted from the anchor) are consecutive grid dates"""
    for k, b in enumerate(bounds, first):
        D.same(c, 'interior boundary on the grid', b, g(k)[1])


def outside(c, g, k, limit, sign):
    """the k-th grid date, or its business day, is no longer inside the schedule"""
    t, r = g(k)
    return lor(le(c, t, limit), le(c, r, limit)) if sign < 0 else lor(le(c, limit, t), le(c, limit, r))


def inside(c, g, k, limit, sign):
    t, r = g(k)
    return land(lt(c, limit, t), lt(c, limit, r)) if sign < 0 else land(lt(c, t, limit), lt(c, r, limit))


def setup(c, freqs, periods, rolls, days=(None,)):
    freq, roll, day = c.choice('freq', freqs), c.choice('roll', rolls), c.choice('day', list(days))
    s, e = term(c, freq, periods)
    return freq, roll, day, s, e, any_calendar(c, 1 if STEP[freq][1] else 2)


def kw(day):
    return {} if day is None else dict(day_roll=day)


def short(c, freqs, periods, rolls, stub, sign, days=(None,)):
    freq, roll, day, s, e, cal = setup(c, freqs, periods, rolls, days)
    df = make(c, s, e, freq, roll, cal, **stub, **kw(day))
    g = grid(c, cal, freq, roll, e if sign < 0 else s, sign, day)
    b = inner(df)
    regular(c, b[::-1] if sign < 0 else b, g)
    c.true('no boundary is left out', outside(c, g, len(b) + 1, s if sign < 0 else e, sign))


def long(c, freqs, periods, rolls, stub, sign, days=(None,)):
    freq, roll, day, s, e, cal = setup(c, freqs, periods, rolls, days)
    df = make(c, s, e, freq, roll, cal, **stub, **kw(day))
    g = grid(c, cal, freq, roll, e if sign < 0 else s, sign, day)
    b = inner(df)
    lim = s if sign < 0 else e
    regular(c, b[::-1] if sign < 0 else b, g)
    n = len(b)
    merged = land(inside(c, g, n + 1, lim, sign), outside(c, g, n + 2, lim, sign))
    c.true('the stub is merged with its neighbour only', merged if n else lor(merged, outside(c, g, 1, lim, sign)))


FIRST = [dict(), dict(first_stub=Stub.SHORT), dict(last_stub=Stub.NONE)]
LAST = [dict(last_stub=Stub.SHORT)]


def default_monthly(c): short(c, [F.MONTHLY], 3, ROLLS, FIRST[0], -1)
def default_months(c): short(c, [F.QUARTERLY, F.SEMIANNUAL, F.ANNUAL], 2, SOME, FIRST[0], -1)
def default_days(c): short(c, [F.WEEKLY, F._28_DAYS], 3, SOME, FIRST[0], -1)
def first_short(c): short(c, [F.QUARTERLY], 3, SOME, c.choice('stub', FIRST[1:]), -1)
def last_short(c): short(c, [F.QUARTERLY, F.WEEKLY], 3, SOME, LAST[0], 1)
def last_short_monthly(c): short(c, [F.MONTHLY], 3, SOME, LAST[0], 1)
def first_long(c): long(c, [F.QUARTERLY, F.WEEKLY], 3, SOME, dict(first_stub=Stub.LONG), -1)
def last_long(c): long(c, [F.QUARTERLY, F.MONTHLY], 3, SOME, dict(last_stub=Stub.LONG), 1)


DAYS = [DayRoll._1, DayRoll._15, DayRoll._30, DayRoll.EOM]


def rolldays_first(c): short(c, [F.MONTHLY], 2, SOME[:1], FIRST[0], -1, DAYS)
def rolldays_last(c): short(c, [F.QUARTERLY], 2, SOME[:1], LAST[0], 1, DAYS)


def given(c, names, freq, periods, rolls):
    roll = c.choice('roll', rolls)
    s, e = term(c, freq, periods)
    cal = any_calendar(c)
    mid = {n: date(c, q, 1995, 2110) for n, q in (('first_period_end', 'f'), ('last_period_start', 'l')) if n in names}
    seq = [s] + list(mid.values()) + [e]
    for a, b in zip(seq, seq[1:]):
        c.assume(a < b)
    df = make(c, s, e, freq, roll, cal, **mid)
    f, l = mid.get('first_period_end'), mid.get('last_period_start')
    b = inner(df)
    # the dates between the given ones are consecutive dates of one grid
    grids = []
    if f is not None and l is None:
        grids = [(f, 1, 0, e), (s, 1, 1, e), (e, -1, 1, s)]
    elif l is not None and f is None:
        grids = [(l, -1, 0, s), (e, -1, 1, s), (s, 1, 1, e)]
    else:
        grids = [(l, -1, 0, f), (s, 1, 1, e), (e, -1, 1, s)]
    fits = []
    for anchor, sign, k0, lim in grids:
        g = grid(c, cal, freq, roll, anchor, sign)
        bs = b if sign > 0 else b[::-1]
        if anchor is f or anchor is l:
            # the anchor itself is the first boundary in its direction
            ok = [same(c, bs[0], anchor)]
            rest = bs[1:] if f is None or l is None else bs[1:-1]
            ok += [same(c, x, g(k)[1]) for k, x in enumerate(rest, 1)]
            if f is not None and l is not None:
                ok += [same(c, bs[-1], f)]
            ok.append(outside(c, g, len(rest) + 1, lim, sign))
        else:
            ok = [same(c, x, g(k)[1]) for k, x in enumerate(bs, 1)]
            # the free end of the grid: no more dates, or one merged into a long stub
            n = len(bs)
            ok.append(lor(outside(c, g, n + 1, lim, sign), land(inside(c, g, n + 1, lim, sign), outside(c, g, n + 2, lim, sign))))
        fits.append(land(*ok))
    c.true('regular between the given dates', lor(*fits))


def first_end(c): given(c, ['first_period_end'], F.QUARTERLY, 2, SOME[:1])
def last_start(c): given(c, ['last_period_start'], F.QUARTERLY, 2, SOME[:1])
def both(c): given(c, ['first_period_end', 'last_period_start'], F.QUARTERLY, 2, SOME[:1])


def given_stub(c, name, freq, periods, roll):
    """one end given, a short or long stub at the other: dates run from the given one (or, when it is a regular date, from the end beside it)"""
    stub = c.choice('stub', [Stub.SHORT, Stub.LONG])
    s, e = term(c, freq, periods)
    cal = any_calendar(c)
    first = name == 'first_period_end'
    m = date(c, 'f' if first else 'l', 1995, 2110)
    c.assume(s < m)
    c.assume(m < e)
    df = make(c, s, e, freq, roll, cal, **{name: m, 'last_stub' if first else 'first_stub': stub})
    b = inner(df) if first else inner(df)[::-1]
    sign, near_end, far = (1, s, e) if first else (-1, e, s)
    fits = []
    for anchor, bs in ((m, b[1:]), (near_end, b)):
        g = grid(c, cal, freq, roll, anchor, sign)
        ok = [same(c, b[0], m)] + [same(c, x, g(k)[1]) for k, x in enumerate(bs, 1)]
        n = len(bs)
        merged, ends = land(inside(c, g, n + 1, far, sign), outside(c, g, n + 2, far, sign)), outside(c, g, n + 1, far, sign)
        ok.append(ends if stub == Stub.SHORT else lor(merged, ends) if len(b) == 1 else merged)
        fits.append(land(*ok))
    c.true('regular from the given date, with the stub asked for', lor(*fits))


def first_end_stub(c): given_stub(c, 'first_period_end', F.QUARTERLY, 2, SOME[0])
def last_start_stub(c): given_stub(c, 'last_period_start', F.QUARTERLY, 2, SOME[0])


def generator(c):
    """the generator itself, in both directions"""
    freq, roll, direction = c.choice('freq', [F.MONTHLY, F.QUARTERLY]), c.choice('roll', SOME), c.choice('direction', ['forward', 'backward'])
    s, e = term(c, freq, 3)
    cal = any_calendar(c)
    d1, d2 = c.no_raise('dates', generate_date_schedule, s, e, freq, direction, roll, DayRoll.UNADJUSTED, False, cal)
    sign = -1 if direction == 'backward' else 1
    g = grid(c, cal, freq, roll, e if sign < 0 else s, sign)
    b = list(d1)[1:]
    regular(c, b[::-1] if sign < 0 else b, g)
    c.true('no boundary is left out', outside(c, g, len(b) + 1, s if sign < 0 else e, sign))
    for x, y in zip(list(d2)[:-1], b):
        D.same(c, 'same boundaries', x, y)


H = [default_monthly, default_months, default_days, first_short, last_short, last_short_monthly, first_long, last_long, rolldays_first, rolldays_last, first_end, last_start, both, first_end_stub, last_start_stub, generator]

if __name__ == '__main__':
    run('C04', [(h.__name__, h) for h in H], patch=D.patch,
        bounds=dict(dates='every start and end date of the years 1995 to 2110, at most 2 or 3 periods apart',
                    frequencies='weekly, 28 days, monthly, quarterly, semiannual, annual', rolls='all five conventions for monthly, modified following and preceding for the others',
                    days='roll days 1, 15, 30 and end of month', calendar='every calendar whose closed stretches last at most 4 days (3 days for weekly and 28-day periods)',
                    stubs='default, short and long at either end; first_period_end and last_period_start anywhere between start and end, alone, together, or with a short or long stub at the other end'),
        assumptions=['pandas timestamps are replaced by (year, month, day) integer terms; the day number of a month start is an unknown constrained by the month lengths',
                     'numpy business-day rolling is an unknown function that is monotone, moves by at most 4 days in the direction of its convention and leaves business days alone'])
