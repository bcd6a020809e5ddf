from symx.api import *
import pandas as pd
from frm.term_structures.fx_helpers import interp_fx_forward_curve_df as interp, fx_forward_curve_helper as curve

T = pd.Timestamp
LAYOUTS = [['2024-01-31'], ['2024-02-27', '2024-03-04'], ['2023-12-28', '2024-01-02', '2024-01-31'], ['2024-02-26', '2024-02-29', '2024-03-01', '2024-03-08']]
ASK = [0, 1, 2, 3, 4, 6, 7]


def quotes(c, n):
    return [c.pos(f'q{i}', typ=(0.5, 2)) for i in range(n)]


def line(dates, q, d):
    """the quoted forward, linear in calendar time between quotes; None outside the quoted range"""
    for i in range(len(dates)):
        if d == dates[i]:
            return q[i]
        if i + 1 < len(dates) and dates[i] < d < dates[i + 1]:
            w = (d - dates[i]).days / (dates[i + 1] - dates[i]).days
            return q[i] + (q[i + 1] - q[i]) * w


def asked(dates, form):
    first, last = dates[0] - pd.DateOffset(days=3), dates[-1] + pd.DateOffset(days=3)
    every = list(pd.date_range(first, last))
    if form == 'reversed':
        return every[::-1]
    if form == 'shuffled':
        return every[1::3] + every[::3] + every[2::3] + every[:2]
    return every


def lookup(c):
    """every calendar date from before the first quote to after the last one, ascending, descending, shuffled with repeats"""
    dates = [T(d) for d in c.choice('layout', LAYOUTS)]
    by = c.choice('by', ['fixing_date', 'delivery_date'])
    form = c.choice('order', ['ascending', 'reversed', 'shuffled', 'series'])
    flat = c.choice('flat', [True, False])
    rows = c.choice('rows', ['sorted', 'reversed'])
    q = quotes(c, len(dates))
    other = {'fixing_date': 'delivery_date', 'delivery_date': 'fixing_date'}[by]
    df = pd.DataFrame({by: dates, other: [d + pd.DateOffset(days=400 if other == 'delivery_date' else -400) for d in dates], 'fx_forward_rate': c.series(q)})
    if rows == 'reversed':
        df = df[::-1].reset_index(drop=True)
    ask = asked(dates, form)
    arg = pd.Series(ask) if form == 'series' else pd.DatetimeIndex(ask)
    got = c.no_raise('lookup', interp, fx_forward_curve_df=df, dates=arg, date_type=by, flat_extrapolation=flat)
    c.shape('length', np.asarray(got), (len(ask),))
    for d, x in zip(ask, got):
        w = line(dates, q, d)
        if w is not None:
            c.eq('interpolated', x, w)
        elif flat:
            c.eq('flat_outside', x, q[0] if d < dates[0] else q[-1])
        else:
            c.true('nothing_outside', not isinstance(x, N.Node) and x != x)


TENORS = ['SP', '1D', '1 Week', '1M', '2 months', '1Y', '15M', '1y3m']
OFF = {'SP': pd.DateOffset(days=0), '1D': pd.DateOffset(days=1), '1 Week': pd.DateOffset(weeks=1), '1M': pd.DateOffset(months=1),
       '2 months': pd.DateOffset(months=2), '1Y': pd.DateOffset(years=1), '15M': pd.DateOffset(months=15), '1y3m': pd.DateOffset(months=15)}


def bus(d, n, roll, hol):
    return T(np.busday_offset(d.to_datetime64().astype('datetime64[D]'), n, roll=roll, holidays=hol))


def market(c):
    day = T(c.choice('curve_date', ['2023-06-30', '2024-02-27', '2024-01-31', '2023-12-22']))
    spot = c.choice('spot_offset', [2, 1, 0])
    hol = ['2023-07-03', '2023-12-25', '2023-12-26', '2024-01-01', '2024-02-28']
    return day, spot, hol, np.busdaycalendar(holidays=hol)


def tenors(c):
    """quoted tenors get their own dates, keep their own quotes and are sorted by delivery"""
    day, spot, hol, cal = market(c)
    names = c.choice('tenors', [['SP', '1D', '1 Week', '1M', '1Y'], ['1Y', '2 months', 'SP'], ['15M', 'SP', '1M']])
    q = quotes(c, len(names))
    df = c.no_raise('build', curve, fx_forward_curve_df=pd.DataFrame({'tenor': names, 'fx_forward_rate': c.series(q)}), curve_date=day, spot_offset=spot, cal=cal)
    fix = [bus(day + OFF[n], 0, 'following', hol) for n in names]
    dlv = [bus(day + OFF[n], spot, 'following', hol) for n in names]
    order = sorted(range(len(names)), key=lambda i: dlv[i])
    check(c, df, order, fix, dlv, q)


def dated(c):
    """quotes given by fixing date or by delivery date, without tenors: the two dates lie spot_offset business days apart"""
    day, spot, hol, cal = market(c)
    by = c.choice('by', ['fixing_date', 'delivery_date', 'both'])
    days = [bus(day, n, 'following', hol) for n in (spot, 9 + spot, 30)]
    q = quotes(c, 3)
    cols = {'fx_forward_rate': c.series(q)}
    fix = days if by != 'delivery_date' else [bus(d, -spot, 'preceding', hol) for d in days]
    dlv = days if by == 'delivery_date' else [bus(d, spot, 'following', hol) for d in days]
    if by == 'both':
        dlv = [d + pd.DateOffset(days=10) for d in days]
    if by != 'delivery_date':
        cols['fixing_date'] = fix
    if by != 'fixing_date':
        cols['delivery_date'] = dlv
    df = c.no_raise('build', curve, fx_forward_curve_df=pd.DataFrame(cols), curve_date=day, spot_offset=spot, cal=cal)
    check(c, df, range(3), fix, dlv, q)


def check(c, df, order, fix, dlv, q):
    c.true('rows', len(df) == len(order))
    for k, i in enumerate(order):
        r = df.iloc[k]
        c.true('fixing_date', T(r['fixing_date']) == fix[i])
        c.true('delivery_date', T(r['delivery_date']) == dlv[i])
        c.eq('quote', r['fx_forward_rate'], q[i])
    for by, ds in (('fixing_date', fix), ('delivery_date', dlv)):
        if len(set(ds)) == len(ds):
            got = interp(fx_forward_curve_df=df, dates=pd.DatetimeIndex(ds), date_type=by)
            for i, x in enumerate(got):
                c.eq('quoted_' + by, x, q[i])


if __name__ == '__main__':
    run('C32', [('lookup', lookup), ('tenors', tenors), ('dated', dated)],
        bounds=dict(quotes='all positive forwards', lookup='four layouts of one to four quote dates, every calendar date from three days before to three days after',
                    term_structure='three tenor lists, four curve dates, spot offsets 0 to 2, one holiday calendar'),
        assumptions=ASSUME_REAL + ['pandas interpolate/reindex on symbolic columns follow their documentation (linear in time between known points)'])
