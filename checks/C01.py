from symx.api import *
from symx import dates as D
from symx.dates import date, dim, index
from frm.enums.utils import DayCountBasis as B
from frm.utils.daycount import day_count, year_frac


def upto30(cond, d):
    return ite(cond, 30, d)


def rule(basis, a, b, final):
    """ISDA 2006 definitions, 4.16 (f), (g) and (h)"""
    (y1, m1, d1), (y2, m2, d2) = D.parts(a), D.parts(b)
    if basis == B._30_360:
        e1 = upto30(d1 == 31, d1)
        e2 = upto30(land(d2 == 31, d1 > 29), d2)
    elif basis == B._30E_360:
        e1, e2 = upto30(d1 == 31, d1), upto30(d2 == 31, d2)
    else:
        feb1, feb2 = land(m1 == 2, d1 == dim(y1, m1)), land(m2 == 2, d2 == dim(y2, m2))
        e1 = upto30(lor(d1 == 31, feb1), d1)
        e2 = upto30(lor(d2 == 31, feb2 if not final else False), d2)
    return 360 * (y2 - y1) + 30 * (m2 - m1) + e2 - e1


def ordered(c, i=''):
    a, b = date(c, 'a' + i), date(c, 'b' + i)
    c.assume(a <= b)
    return a, b


def edges(c, names):
    def hint(env, rng):
        for k in names:
            if rng.random() < 0.6:
                env[k + 'd'] = rng.choice((1, 28, 29, 30, 31))
            if rng.random() < 0.4:
                env[k + 'm'] = 2
                env[k + 'd'] = rng.choice((28, 29))
            if rng.random() < 0.3:
                env[k + 'y'] = rng.choice((1996, 2000, 2004, 2100))
        for i in ('', '0', '1'):
            if 'a' + i + 'y' in env and 'b' + i + 'y' in env and env['a' + i + 'y'] > env['b' + i + 'y']:
                for p in 'ymd':
                    env['a' + i + p], env['b' + i + p] = env['b' + i + p], env['a' + i + p]
    c.hint(hint)


BASES = [B._30_360, B._30E_360, B._30E_360_ISDA]


def scalar(c):
    edges(c, 'ab')
    basis = c.choice('basis', BASES)
    a, b = ordered(c)
    final = c.choice('final', [None, True, False])
    k = {} if final is None else dict(is_end_date_on_termination=final)
    want = rule(basis, a, b, final is not False)
    c.eq('days', one(c.no_raise('days', day_count, a, b, basis, **k)), want)
    c.eq('years', one(c.no_raise('years', year_frac, a, b, basis, **k)), want / 360)


def pairs(c, layout):
    """start dates and end dates as the caller passes them, and as the two lists of pairs"""
    if layout == 'one start':
        a, b0 = date(c, 'a0'), date(c, 'b0')
        b1 = date(c, 'b1')
        A, Bs = [a, a], [b0, b1]
    elif layout == 'one end':
        a0, a1, b = date(c, 'a0'), date(c, 'a1'), date(c, 'b0')
        A, Bs = [a0, a1], [b, b]
    else:
        A, Bs = [date(c, 'a0'), date(c, 'a1')], [date(c, 'b0'), date(c, 'b1')]
    for a, b in zip(A, Bs):
        c.assume(a <= b)
    sa = A[0] if layout == 'one start' else (A if layout == 'lists' else index(c, A))
    sb = Bs[0] if layout == 'one end' else (Bs if layout == 'lists' else index(c, Bs))
    return A, Bs, sa, sb


def vector(c):
    elements(c, c.choice('basis', BASES[:2]), c.choice('final', [None, True]), c.choice('layout', LAYOUTS))


def vector_isda(c):
    elements(c, BASES[2], None, c.choice('layout', LAYOUTS[:2]))


def vector_isda_one(c):
    elements(c, BASES[2], None, c.choice('layout', LAYOUTS[2:]))


def vector_isda_flag(c):
    elements(c, BASES[2], c.choice('final', [True, False]), 'indices')


def vector_isda_each(c):
    elements(c, BASES[2], 'each', 'indices')


LAYOUTS = ['indices', 'lists', 'one start', 'one end']


def elements(c, basis, final, layout):
    edges(c, ('a0', 'a1', 'b0', 'b1'))
    A, Bs, sa, sb = pairs(c, layout)
    flags = [False, True] if final is None else ([True, False] if final == 'each' else [final, final])
    k = {} if final is None else dict(is_end_date_on_termination=np.array(flags) if final == 'each' else final)
    want = [rule(basis, a, b, f) for a, b, f in zip(A, Bs, flags)]
    got = c.no_raise('days', day_count, sa, sb, basis, **k)
    c.shape('shape', got, (2,))
    for g, w in zip(got, want):
        c.eq('days', g, w)
    got = c.no_raise('years', year_frac, sa, sb, basis, **k)
    c.shape('shape', got, (2,))
    for g, w in zip(got, want):
        c.eq('years', g, w / 360)


def order(c):
    """an end date before the start date is refused"""
    edges(c, 'ab')
    basis = c.choice('basis', BASES)
    a, b = date(c, 'a'), date(c, 'b')
    c.assume(b < a)
    refused = False
    try:
        c.call(day_count, a, b, basis)
    except (AssertionError, ValueError):
        refused = True
    c.true('refused', refused)


if __name__ == '__main__':
    run('C01', [('scalar', scalar), ('vector', vector), ('vector_isda', vector_isda), ('vector_isda_one', vector_isda_one), ('vector_isda_flag', vector_isda_flag), ('vector_isda_each', vector_isda_each), ('order', order)], patch=D.patch,
        bounds=dict(dates='every pair of calendar dates with start <= end, years 1990 to 2110', bases='30/360, 30E/360, 30E/360 ISDA',
                    flags='termination flag absent, true, false, and given per element', calls='scalar and vectors of two, one side scalar, index and list inputs'),
        assumptions=['pandas timestamps and indices are replaced by (year, month, day) integer terms under the Gregorian rules'])
