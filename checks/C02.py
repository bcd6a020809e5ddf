from symx.api import *
from symx import dates as D
from symx.dates import date, index, leap, ordinal
from C01 import edges, ordered, pairs
from frm.enums.utils import DayCountBasis as B
from frm.utils.daycount import day_count, year_frac

BASES = {B.ACT_360: 360, B.ACT_365: 365, B.ACT_366: 366, B.ACT_ACT: None}


def year_length(y):
    return ite(leap(y), 366, 365)


def days(a, b):
    return D.num(b) - D.num(a)


def jan1(y):
    return ordinal(y, 1, 1)


def act_act(a, b):
    """ISDA 4.16 (b): days in leap years over 366 plus days in other years over 365; whole years in between count one each"""
    y1, y2 = a.year, b.year
    within = days(a, b) / year_length(y1)
    across = (jan1(y1 + 1) - D.num(a)) / year_length(y1) + (y2 - y1 - 1) + (D.num(b) - jan1(y2)) / year_length(y2)
    return ite(y1 == y2, within, across)


def fraction(basis, a, b):
    return act_act(a, b) if basis == B.ACT_ACT else days(a, b) / BASES[basis]


def scalar(c):
    edges(c, 'ab')
    basis = c.choice('basis', list(BASES))
    a, b = ordered(c)
    c.eq('days', one(c.no_raise('days', day_count, a, b, basis)), days(a, b))
    c.eq('years', one(c.no_raise('years', year_frac, a, b, basis)), fraction(basis, a, b))


def whole_years(c):
    """a period of exactly k calendar years starting on 1 January is k years under ACT/ACT"""
    y, k = c.int('y', 1990, 2060), c.int('k', 0, 50)
    if c.sym:
        a, b = D.TS(y, 1, 1), D.TS(y + k, 1, 1)
    else:
        import pandas as pd
        a, b = pd.Timestamp(y, 1, 1), pd.Timestamp(y + k, 1, 1)
    c.eq('whole_years', one(c.no_raise('years', year_frac, a, b, B.ACT_ACT)), k)


def additive(c):
    """a period is worth the sum of its two parts, and an empty one nothing"""
    edges(c, ('a', 'b', 'm'))
    basis = c.choice('basis', list(BASES))
    a, b = ordered(c)
    m = date(c, 'm')

    def hint(env, rng):
        if rng.random() < 0.8:
            p = sorted([(env[k + 'y'], env[k + 'm'], env[k + 'd']) for k in 'amb'])
            for k, (y, mo, d) in zip('amb', p):
                env[k + 'y'], env[k + 'm'], env[k + 'd'] = y, mo, d
    c.hint(hint)
    c.assume(land(a <= m, m <= b))
    f = lambda x, y: one(c.no_raise('years', year_frac, x, y, basis))
    c.eq('additive', f(a, m) + f(m, b), f(a, b))
    c.eq('empty', f(a, a), 0)


def vector(c):
    edges(c, ('a0', 'a1', 'b0', 'b1'))
    basis = c.choice('basis', list(BASES))
    A, Bs, sa, sb = pairs(c, c.choice('layout', ['indices', 'lists', 'one start', 'one end']))
    for name, f, want in (('days', day_count, days), ('years', year_frac, lambda a, b: fraction(basis, a, b))):
        got = c.no_raise(name, f, sa, sb, basis)
        c.shape('shape', got, (2,))
        for g, a, b in zip(got, A, Bs):
            c.eq(name, g, want(a, b))


def gregorian(c):
    """the day numbers the harnesses use are those of the calendar"""
    y, m = c.int('y', 1990, 2110), c.int('m', 1, 12)
    c.eq('epoch', ordinal(y - y + 1970, 1, 1) if c.sym else ordinal(1970, 1, 1), 0)
    c.eq('month', ordinal(ite(m == 12, y + 1, y), ite(m == 12, 1, m + 1), 1) - ordinal(y, m, 1), D.dim(y, m))
    c.eq('year', jan1(y + 1) - jan1(y), year_length(y))
    d = c.int('d', 1, 31)
    c.eq('day', ordinal(y, m, d) if c.sym else ordinal(y, m, 1) + d - 1, ordinal(y, m, 1) + d - 1)


def order(c):
    """an end date before the start date is refused"""
    edges(c, 'ab')
    basis = c.choice('basis', list(BASES))
    a, b = date(c, 'a'), date(c, 'b')
    c.assume(b < a)
    refused = False
    try:
        c.call(year_frac, a, b, basis)
    except (AssertionError, ValueError):
        refused = True
    c.true('refused', refused)


if __name__ == '__main__':
    run('C02', [('gregorian', gregorian), ('scalar', scalar), ('whole_years', whole_years), ('additive', additive), ('vector', vector), ('order', order)], patch=D.patch,
        bounds=dict(dates='every pair (and every intermediate date) of calendar dates with start <= end, years 1990 to 2110', bases='ACT/360, ACT/365, ACT/366, ACT/ACT',
                    calls='scalar and vectors of two, one side scalar, index and list inputs'),
        assumptions=ASSUME_REAL[:1] + ['pandas timestamps and indices are replaced by (year, month, day) integer terms under the Gregorian rules'])
