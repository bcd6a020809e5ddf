from symx.api import *
import pandas as pd
from symx.stubs import swapped, splines
from frm.enums import ZeroCurveInterpMethod as I, ZeroCurveExtrapMethod as E, CompoundingFreq as CF, DayCountBasis as B
from frm.term_structures.zero_curve import ZeroCurve
from frm.utils.daycount import year_frac

T = pd.Timestamp
DAY = pd.DateOffset(days=1)
LAYOUTS = [('2023-12-20', [9, 30, 71]), ('2024-02-26', [2, 5]), ('2023-06-30', [40])]
LINEAR = I.LINEAR_ON_LN_DISCOUNT


def layout(c, options=LAYOUTS):
    day, offs = c.choice('layout', options)
    d0 = T(day)
    return d0, [d0 + pd.DateOffset(days=k) for k in offs]


def factors(c, n):
    return [c.pos(f'df{i}', typ=(0.6, 1.1)) for i in range(n)]


def build(c, d0, df, **k):
    with swapped(splines(c)):
        return c.no_raise('construct', ZeroCurve, curve_date=d0, pillar_df=df, **k)


def table(c, x, xs, y, ys, rows='sorted'):
    df = pd.DataFrame({x: xs, y: c.series(ys)})
    return df[::-1].reset_index(drop=True) if rows == 'reversed' else df


def ask(c, label, f, *a, **k):
    with swapped(splines(c)):
        return c.no_raise(label, f, *a, **k)


def loglinear(d0, dates, dfs, basis, d):
    """discount factor at d: log-linear in the year fraction between the pillars, the curve date counting as a pillar of factor one"""
    t = lambda x: year_frac(d0, x, basis)
    ds, ln = [d0] + dates, [0] + [log(v) for v in dfs]
    if ds[1] == d0:
        ds, ln = ds[1:], ln[1:]
    for i, x in enumerate(ds):
        if x == d and (i or d != d0 or t(d) == 0):
            return exp(ln[i])
    for i in range(len(ds) - 1):
        if ds[i] <= d < ds[i + 1]:
            t0 = t(ds[i]) if ds[i] != d0 else 0
            w = (t(d) - t0) / (t(ds[i + 1]) - t0)
            return exp(ln[i] + (ln[i + 1] - ln[i]) * w)


def every(d0, dates):
    return list(pd.date_range(d0, dates[-1]))


def check_levels(c, zc, d0, dates, dfs, basis):
    ds = every(d0, dates)
    got = ask(c, 'discount factors', zc.get_discount_factors, pd.DatetimeIndex(ds))
    c.shape('a factor per date', got, (len(ds),))
    z = ask(c, 'zero rates', zc.get_zero_rates, CF.CONTINUOUS, pd.DatetimeIndex(ds))
    for d, v, r in zip(ds, got, z):
        c.eq('pillar' if d in dates else 'curve date' if d == d0 else 'between pillars', v, loglinear(d0, dates, dfs, basis, d))
        if d != d0:
            c.eq('zero rate of the factor', r, -log(v) / year_frac(d0, d, basis))


def linear(c):
    """discount factor pillars by date, on every calendar date up to the last pillar"""
    d0, dates = layout(c)
    basis, rows = c.choice('basis', [B.ACT_ACT, B.ACT_365, B.ACT_360]), c.choice('rows', ['sorted', 'reversed'])
    dfs = factors(c, len(dates))
    zc = build(c, d0, table(c, 'date', dates, 'discount_factor', dfs, rows), day_count_basis=basis, interp_method=LINEAR)
    check_levels(c, zc, d0, dates, dfs, basis)


def given_by(c):
    """pillars given as days, tenors or year fractions describe the same curve"""
    by = c.choice('by', ['days', 'tenor', 'years'])
    d0, basis, cal = T('2023-12-18'), B.ACT_365, np.busdaycalendar(holidays=['2023-12-25'])
    dates = [T('2023-12-26'), T('2024-01-18'), T('2024-02-19')]           # the tenors land on a holiday, a Thursday, a Sunday
    xs = {'days': [8, 31, 63], 'tenor': ['1w', '1m', '2m'], 'years': [8 / 365, 31 / 365, 63 / 365]}[by]
    dfs = factors(c, 3)
    zc = build(c, d0, table(c, by, xs, 'discount_factor', dfs), day_count_basis=basis, interp_method=LINEAR, cal=cal)
    check_levels(c, zc, d0, dates, dfs, basis)


def from_rates(c):
    """zero rate pillars: the factor at a pillar is that of the quoted rate, and the rate comes back"""
    d0, dates = layout(c, LAYOUTS[:2])
    freq = c.choice('freq', list(CF))
    basis = B.ACT_365
    zs = [c.real(f'z{i}', lo=-0.5, hi=2, typ=(-0.02, 0.1)) for i in range(len(dates))]
    zc = build(c, d0, table(c, 'date', dates, 'zero_rate', zs), compounding_freq=freq, day_count_basis=basis, interp_method=LINEAR)
    got = ask(c, 'discount factors', zc.get_discount_factors, pd.DatetimeIndex(dates))
    back = ask(c, 'zero rates', zc.get_zero_rates, freq, pd.DatetimeIndex(dates))
    m = {CF.DAILY: 365, CF.WEEKLY: 52, CF.MONTHLY: 12, CF.QUARTERLY: 4, CF.SEMIANNUAL: 2, CF.ANNUAL: 1}
    for d, z, v, r in zip(dates, zs, got, back):
        t = year_frac(d0, d, basis)
        if freq == CF.CONTINUOUS:
            c.eq('continuous rate', log(v), -z * t)
        elif freq == CF.SIMPLE:
            c.eq('simple rate', v * (1 + z * t), 1)
        else:
            c.eq('compounded rate', log(v), -t * m[freq] * log(1 + z / m[freq]))
        if freq in (CF.CONTINUOUS, CF.SIMPLE):
            c.eq('the quoted rate comes back', r, z)
        else:
            c.eq('the quoted rate comes back', log(1 + r / m[freq]), log(1 + z / m[freq]))


def compounding(c):
    """rates returned under any compounding imply the factor returned for the same date"""
    d0, dates = layout(c, LAYOUTS[:1])
    freq = c.choice('freq', list(CF))
    dfs = factors(c, len(dates))
    zc = build(c, d0, table(c, 'date', dates, 'discount_factor', dfs), day_count_basis=B.ACT_365, interp_method=LINEAR)
    ds = every(d0, dates)[1::6]
    z = ask(c, 'zero rates', zc.get_zero_rates, freq, pd.DatetimeIndex(ds))
    for d, r in zip(ds, z):
        t = year_frac(d0, d, B.ACT_365)
        c.eq('rate of the factor', log(freq.calc_discount_factor_from_zero_rate(t, r)), log(loglinear(d0, dates, dfs, B.ACT_365, d)))


def forms(c):
    """one date, a list of dates, days and years: the same answer"""
    d0, dates = layout(c, LAYOUTS[:1])
    basis, method = B.ACT_365, c.choice('method', list(I))
    dfs = factors(c, len(dates))
    if method != LINEAR:
        dates = dates + [dates[-1] + 20 * DAY]
        dfs = dfs + [c.pos('dfz', typ=(0.6, 1.1))]
    zc = build(c, d0, table(c, 'date', dates, 'discount_factor', dfs), day_count_basis=basis, interp_method=method)
    ds = [dates[0], d0 + 12 * DAY, dates[1] + 5 * DAY, d0 + 12 * DAY]
    n = [(d - d0).days for d in ds]
    base = ask(c, 'index', zc.get_discount_factors, pd.DatetimeIndex(ds))
    rate = ask(c, 'index', zc.get_zero_rates, CF.CONTINUOUS, pd.DatetimeIndex(ds))
    how = c.choice('how', ['series', 'one', 'datetime64', 'days', 'day', 'years', 'year'])
    arg = {'series': lambda i: dict(dates=pd.Series(ds)), 'one': lambda i: dict(dates=ds[i]), 'datetime64': lambda i: dict(dates=ds[i].to_datetime64()),
           'days': lambda i: dict(days=pd.Series(n)), 'day': lambda i: dict(days=n[i]),
           'years': lambda i: dict(years=np.array(n) / 365), 'year': lambda i: dict(years=n[i] / 365)}[how]
    if how in ('series', 'days', 'years'):
        c.eq('same factors', np.asarray(ask(c, 'factors', zc.get_discount_factors, **arg(0))), np.asarray(base))
        c.eq('same rates', np.asarray(ask(c, 'rates', zc.get_zero_rates, CF.CONTINUOUS, **arg(0))), np.asarray(rate))
    else:
        for i in range(3):
            c.eq('same factor', ask(c, 'factor', zc.get_discount_factors, **arg(i)), base[i])
            c.eq('same rate', ask(c, 'rate', zc.get_zero_rates, CF.CONTINUOUS, **arg(i)), rate[i])


def outside(c):
    """dates beyond the pillars are undefined or held flat, in the order asked"""
    d0, dates = layout(c, LAYOUTS[:2])
    dfs = factors(c, len(dates))
    ext, order = c.choice('extrap', list(E)), c.choice('order', ['late first', 'early first', 'mixed'])
    zc = build(c, d0, table(c, 'date', dates, 'discount_factor', dfs), interp_method=LINEAR, extrap_method=ext, day_count_basis=B.ACT_365)
    late, early, mid = dates[-1] + 3 * DAY, d0 - 2 * DAY, [dates[1], dates[0]]
    ds = {'late first': [late, dates[-1] + DAY] + mid, 'early first': mid + [early], 'mixed': [mid[0], late, early, mid[1], late]}[order]
    got = ask(c, 'discount factors', zc.get_discount_factors, pd.DatetimeIndex(ds))
    c.shape('a factor per date', np.asarray(got), (len(ds),))
    for d, v in zip(ds, got):
        if d0 <= d <= dates[-1]:
            c.eq('in range', v, loglinear(d0, dates, dfs, B.ACT_365, d))
        elif ext == E.FLAT:
            c.eq('held flat', v, 1 if d < d0 else dfs[-1])
        else:
            c.true('undefined', not isinstance(v, N.Node) and v != v)


def start_quoted(c):
    """a pillar on the curve date itself"""
    d0, dates = layout(c, LAYOUTS[:1])
    ds = [d0] + dates
    if c.choice('quoted', ['factor', 'rate']) == 'factor':
        dfs = factors(c, len(dates))
        df, k = table(c, 'date', ds, 'discount_factor', [1.0] + dfs), {}
    else:
        zs = [c.real(f'z{i}', typ=(-0.02, 0.1)) for i in range(len(ds))]
        dfs = [exp(-z * year_frac(d0, d, B.ACT_365)) for z, d in zip(zs[1:], dates)]
        df, k = table(c, 'date', ds, 'zero_rate', zs), dict(compounding_freq=CF.CONTINUOUS)
    zc = build(c, d0, df, day_count_basis=B.ACT_365, interp_method=LINEAR, **k)
    check_levels(c, zc, d0, dates, dfs, B.ACT_365)


def inputs_kept(c):
    """the caller's table is not changed, so the same table gives the same curve again"""
    d0, dates = layout(c, LAYOUTS[:1])
    by = c.choice('by', ['date', 'days', 'tenor'])
    dfs = factors(c, 3)
    xs = {'date': dates, 'days': [9, 30, 71], 'tenor': ['1W', '1 Month', '2m']}[by]
    df = table(c, by, xs, 'discount_factor', dfs)
    a = build(c, d0, df, interp_method=LINEAR)
    c.true('columns', list(df.columns) == [by, 'discount_factor'] and list(df[by]) == xs)
    b = build(c, d0, df, interp_method=LINEAR)
    q = pd.DatetimeIndex(every(d0, dates)[:50:7])
    c.eq('same curve', np.asarray(ask(c, 'f', b.get_discount_factors, q)), np.asarray(ask(c, 'f', a.get_discount_factors, q)))


CUBIC = [I.CUBIC_SPLINE_ON_LN_DISCOUNT, I.CUBIC_SPLINE_ON_CCZR]


def rates(c, n):
    return [c.real(f'z{i}', lo=-0.5, hi=1, typ=(-0.02, 0.1)) for i in range(n)]


def near(c, label, a, b, tol=1e-9):
    c.le(label, a - b, tol)
    c.le(label, b - a, tol)


def cubic(c):
    """the quoted points are met, and in between runs the cubic spline of the quantity the method names"""
    from scipy.interpolate import CubicSpline
    method = c.choice('method', CUBIC)
    day, offs = c.choice('layout', [('2023-12-20', [9, 30, 71, 120, 190]), ('2024-02-26', [30, 61, 92, 183])])
    d0, basis = T(day), c.choice('basis', [B.ACT_365, B.ACT_ACT])
    dates = [d0 + pd.DateOffset(days=k) for k in offs]
    zs = rates(c, len(dates))
    zc = build(c, d0, table(c, 'date', dates, 'zero_rate', zs), compounding_freq=CF.CONTINUOUS, day_count_basis=basis, interp_method=method)
    ds = every(d0, dates)[1::4] + dates
    t = [float(year_frac(d0, d, basis)) for d in ds]
    x = [float(year_frac(d0, d, basis)) for d in dates]
    y = [-z * v for z, v in zip(zs, x)]
    if method == CUBIC[0]:
        x, y = [0.0] + x, [0] + y
    else:
        y = zs
    basis_fns = [CubicSpline(x, [float(i == j) for j in range(len(x))], bc_type='not-a-knot') for i in range(len(x))]
    got = ask(c, 'discount factors', zc.get_discount_factors, pd.DatetimeIndex(ds))
    z = ask(c, 'zero rates', zc.get_zero_rates, CF.CONTINUOUS, pd.DatetimeIndex(ds))
    for d, s, v, r in zip(ds, t, got, z):
        if d in dates:
            near(c, 'pillar', log(v), -zs[dates.index(d)] * s)
        else:
            f = sum(w * float(b(s)) for w, b in zip(y, basis_fns))
            near(c, 'between pillars', log(v), f if method == CUBIC[0] else -f * s)
        near(c, 'zero rate of the factor', r * s, -log(v))


def by_years(c):
    """queries at any year fraction within the pillars"""
    d0, dates = layout(c, LAYOUTS[:1])
    zs = rates(c, len(dates))
    basis = B.ACT_365
    zc = build(c, d0, table(c, 'date', dates, 'zero_rate', zs), compounding_freq=CF.CONTINUOUS, day_count_basis=basis, interp_method=LINEAR)
    x = [0.0] + [float(year_frac(d0, d, basis)) for d in dates]
    y = [0] + [-z * v for z, v in zip(zs, x[1:])]
    i = c.choice('segment', list(range(len(dates))))
    t = c.real('t', lo=x[i], hi=x[i + 1], lo_open=i == 0)
    v = ask(c, 'factor', zc.get_discount_factors, years=t)
    r = ask(c, 'rate', zc.get_zero_rates, CF.CONTINUOUS, years=t)
    near(c, 'log-linear in years', log(v), y[i] + (y[i + 1] - y[i]) * ((t - x[i]) / (x[i + 1] - x[i])))
    c.eq('zero rate of the factor', r * t, -log(v))


def instantaneous(c):
    """the instantaneous forward rate is minus the slope of the log discount factor"""
    method = c.choice('method', CUBIC)
    d0 = T('2023-12-20')
    offs = [30, 61, 182, 366, 731]
    dates = [d0 + pd.DateOffset(days=k) for k in offs]
    zs = rates(c, len(dates))
    zc = build(c, d0, table(c, 'date', dates, 'zero_rate', zs), compounding_freq=CF.CONTINUOUS, day_count_basis=B.ACT_365, interp_method=method)
    t = c.real('t', lo=0.01, hi=2.0)
    f = ask(c, 'forward', zc.get_instantaneous_forward_rate, t)
    g = c.derivative(lambda s: log(ask(c, 'factor', zc.get_discount_factors, years=s)), t)
    near(c, 'slope of the log factor', one(f), -g, tol=1e-7)


def shifted(c):
    """a flat shift moves every pillar's continuous zero rate by the basis points asked, and leaves the curve it came from alone"""
    d0, dates = layout(c, LAYOUTS[:1])
    method = c.choice('method', [LINEAR] + CUBIC)
    dates = dates + [dates[-1] + 40 * DAY]
    zs = rates(c, len(dates))
    basis = c.choice('basis', [B.ACT_365, B.ACT_ACT])
    zc = build(c, d0, table(c, 'date', dates, 'zero_rate', zs), compounding_freq=CF.CONTINUOUS, day_count_basis=basis, interp_method=method,
               extrap_method=E.FLAT)
    bp = c.real('bp', lo=-200, hi=200)
    up = ask(c, 'shift', zc.flat_shift, bp)
    q = pd.DatetimeIndex(dates)
    a, b = ask(c, 'rates', zc.get_zero_rates, CF.CONTINUOUS, q), ask(c, 'rates', up.get_zero_rates, CF.CONTINUOUS, q)
    for z, u, v in zip(zs, a, b):
        near(c, 'the curve itself', u, z)
        near(c, 'shifted by the basis points', v, z + bp / 10000)
    c.true('same conventions', (up.curve_date, up.day_count_basis, up.interp_method, up.extrap_method) == (d0, basis, method, E.FLAT))
    if method == LINEAR:
        mid = dates[0] + 5 * DAY
        near(c, 'between pillars', ask(c, 'rate', up.get_zero_rates, CF.CONTINUOUS, mid), ask(c, 'rate', zc.get_zero_rates, CF.CONTINUOUS, mid) + bp / 10000)


H = [linear, given_by, from_rates, compounding, forms, outside, start_quoted, inputs_kept, cubic, by_years, instantaneous, shifted]

if __name__ == '__main__':
    run('C09', [(h.__name__, h) for h in H], bounds='tables of up to 4 pillars on listed date layouts (weekend, month-end and leap-day pillars, one pillar, one on the curve date), levels free (spline methods: rates in [-0.5, 1]); every calendar date up to the last pillar, and beyond it under both extrapolations; query years free within the pillars', assumptions=ASSUME_REAL)
