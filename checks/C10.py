from symx.api import *
import pandas as pd
from checks.C09 import build, table, factors, ask, loglinear, near, rates, CUBIC, LINEAR, LAYOUTS, T, DAY, B, E, I, CF
from frm.enums import TermRate, RFRFixingCalcMethod as R
from frm.utils.daycount import year_frac

BASES = [B.ACT_365, B.ACT_360, B.ACT_ACT, B.ACT_366, B._30_360, B._30E_360]
FORMS = ['index', 'series', 'one', 'datetime64', 'date']


def curve(c, basis, method=LINEAR, cal=None, ext=E.NONE):
    """(curve date, curve): log-linear from factors of any level, cubic from rates"""
    k = dict(cal=cal) if cal is not None else {}
    d0 = T('2023-11-20')
    dates = [d0 + pd.DateOffset(days=n) for n in (9, 30, 71, 120)]
    if method == LINEAR:
        tab = table(c, 'date', dates, 'discount_factor', factors(c, 4))
    else:
        tab, k = table(c, 'date', dates, 'zero_rate', rates(c, 4)), dict(k, compounding_freq=CF.CONTINUOUS)
    return d0, build(c, d0, tab, day_count_basis=basis, interp_method=method, extrap_method=ext, **k)


def lndf(c, zc, ds):
    return [log(v) for v in ask(c, 'factors', zc.get_discount_factors, pd.DatetimeIndex(ds))]


def forward(c, zc, s, e, how, kind):
    arg = {'index': lambda ds: pd.DatetimeIndex(ds), 'series': lambda ds: pd.Series(ds, index=range(7, 7 + len(ds))), 'one': lambda ds: ds[0],
           'datetime64': lambda ds: ds[0].to_datetime64(), 'date': lambda ds: ds[0].date()}[how]
    return ask(c, 'forward rates', zc.get_forward_rates, arg(s), arg(e), kind)


def spans(d0, how):
    ps = [(0, 9), (0, 40), (9, 30), (4, 71), (30, 120), (75, 76), (41, 42)]
    if how not in ('index', 'series'):
        ps = ps[3:4]
    return [d0 + pd.DateOffset(days=a) for a, b in ps], [d0 + pd.DateOffset(days=b) for a, b in ps]


def rolls(c):
    """the forward rate takes the factor of the start to that of the end over the curve's day count"""
    kind = c.choice('kind', list(TermRate) + [R.DAILY_COMPOUNDED])
    how, basis = c.choice('how', FORMS), c.choice('basis', BASES)
    d0, zc = curve(c, basis)
    s, e = spans(d0, how)
    got = forward(c, zc, s, e, how, kind)
    c.shape('a rate per period', np.asarray(got), (len(s),))
    a, b = lndf(c, zc, s), lndf(c, zc, e)
    for x, y, p, q, r in zip(s, e, a, b, got):
        t = year_frac(x, y, basis)
        if kind == TermRate.CONTINUOUS:
            c.eq('continuous', r * t, p - q)
        elif kind == TermRate.ANNUAL:
            c.eq('annual', log(1 + r) * t, p - q)
        else:
            c.eq('simple', 1 + r * t, exp(p - q))


def rolls_cubic(c):
    """the same on spline curves"""
    kind = c.choice('kind', list(TermRate) + [R.DAILY_COMPOUNDED])
    d0, zc = curve(c, B.ACT_365, c.choice('method', CUBIC))
    s, e = spans(d0, 'index')
    got = forward(c, zc, s, e, 'index', kind)
    a, b = lndf(c, zc, s), lndf(c, zc, e)
    for x, y, p, q, r in zip(s, e, a, b, got):
        t = year_frac(x, y, B.ACT_365)
        if kind in (TermRate.CONTINUOUS, TermRate.ANNUAL):
            near(c, 'rolls the factor', r * t if kind == TermRate.CONTINUOUS else log(1 + r) * t, p - q)
        else:
            c.eq('rolls the factor', 1 + r * t, exp(p - q))


def averages(c):
    """averaged overnight rates: the mean of the one-day forward rates, over every day or over the business days"""
    kind = c.choice('kind', [R.WEIGHTED_AVERAGE, R.SIMPLE_AVERAGE])
    how, basis = c.choice('how', ['index', 'series', 'one']), c.choice('basis', BASES[:4])
    cal = np.busdaycalendar(holidays=['2023-12-25', '2023-12-26', '2024-01-01'])
    d0, zc = curve(c, basis, cal=cal)
    ps = [(0, 8), (25, 47), (35, 36), (36, 44)] if how != 'one' else [(32, 40)]
    s, e = [d0 + pd.DateOffset(days=a) for a, b in ps], [d0 + pd.DateOffset(days=b) for a, b in ps]
    got = forward(c, zc, s, e, how, kind)
    c.shape('a rate per period', np.asarray(got), (len(s),))
    for x, y, r in zip(s, e, got):
        days = [d for d in pd.date_range(x, y - DAY) if kind == R.WEIGHTED_AVERAGE or np.is_busday(d.date(), busdaycal=cal)]
        if not days:
            c.true('no business day', not isinstance(r, N.Node) and r != r)
            continue
        a, b = lndf(c, zc, days), lndf(c, zc, [d + DAY for d in days])
        total = sum((exp(p - q) - 1) / year_frac(d, d + DAY, basis) for d, p, q in zip(days, a, b))
        c.eq('average', r * len(days), total)


def chained(c):
    """compounding the forwards of adjoining periods gives the forward of the whole"""
    kind = c.choice('kind', [TermRate.SIMPLE, TermRate.CONTINUOUS, R.DAILY_COMPOUNDED])
    basis = c.choice('basis', BASES[:3])
    d0, zc = curve(c, basis)
    cut = [d0 + pd.DateOffset(days=k) for k in (3, 12, 30, 55, 71, 119)]
    r = forward(c, zc, cut[:-1], cut[1:], 'index', kind)
    whole = forward(c, zc, cut[:1], cut[-1:], 'index', kind)[0]
    t = [year_frac(a, b, basis) for a, b in zip(cut, cut[1:])]
    w = year_frac(cut[0], cut[-1], basis)
    if kind == TermRate.CONTINUOUS:
        c.eq('sum', sum(x * y for x, y in zip(r, t)), whole * w)
    else:
        g = 1
        for x, y in zip(r, t):
            g = g * (1 + x * y)
        c.eq('product', g, 1 + whole * w)


def refused(c):
    """a period that ends before it starts, or starts before the curve, is refused"""
    d0, zc = curve(c, B.ACT_365)
    kind = c.choice('kind', [TermRate.SIMPLE, R.WEIGHTED_AVERAGE])
    s, e = c.choice('period', [(20, 10), (-3, 10)])
    f = lambda: zc.get_forward_rates(pd.DatetimeIndex([d0 + pd.DateOffset(days=5), d0 + pd.DateOffset(days=s)]),
                                     pd.DatetimeIndex([d0 + pd.DateOffset(days=9), d0 + pd.DateOffset(days=e)]), kind)
    c.raises('refused', AssertionError, f)


def flat_beyond(c):
    """with flat extrapolation the forwards past the last pillar follow the factors returned there"""
    d0, zc = curve(c, B.ACT_365, ext=E.FLAT)
    kind = c.choice('kind', [TermRate.SIMPLE, TermRate.CONTINUOUS, R.WEIGHTED_AVERAGE])
    s, e = d0 + pd.DateOffset(days=118), d0 + pd.DateOffset(days=125)
    r = one(forward(c, zc, [s], [e], 'one', kind))
    if kind == R.WEIGHTED_AVERAGE:
        a = lndf(c, zc, list(pd.date_range(s, e)))
        c.eq('average', r * 7, sum(exp(p - q) - 1 for p, q in zip(a, a[1:])) * 365)
    else:
        p, q = lndf(c, zc, [s, e])
        t = 7 / 365
        c.eq('rolls the factor', r * t, p - q if kind == TermRate.CONTINUOUS else exp(p - q) - 1)


H = [rolls, rolls_cubic, averages, chained, refused, flat_beyond]

if __name__ == '__main__':
    run('C10', [(h.__name__, h) for h in H], bounds='listed periods within and beyond the pillars of listed layouts, levels free (spline methods: rates in [-0.5, 1]); all three compoundings, all day counts, with and without a holiday calendar', assumptions=ASSUME_REAL)
