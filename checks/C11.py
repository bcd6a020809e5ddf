from symx.api import *
import pandas as pd
from frm.enums import DayCountBasis as B, RFRFixingCalcMethod as R
from frm.term_structures.historical_swap_index_fixings import RFRFixings, TermFixings

T = pd.Timestamp
DAY = pd.DateOffset(days=1)
HOLIDAYS = ['2023-12-25', '2023-12-26', '2024-01-01']
DAYS = {B.ACT_360: 360, B.ACT_365: 365, B.ACT_366: 366}


def history(c, first='2023-12-15', last='2024-01-12', order='oldest first', every=False):
    """fixings on the business days (or every day) from first to last, at any level"""
    ds = [d for d in pd.date_range(first, last) if every or (d.weekday() < 5 and str(d.date()) not in HOLIDAYS)]
    fx = {d: c.real(f'f{d.strftime("%m%d")}', lo=-0.5, hi=1, typ=(-0.01, 0.08)) for d in ds}
    rows = {'oldest first': ds, 'newest first': ds[::-1], 'shuffled': ds[1::2] + ds[::2]}[order]
    return fx, pd.DataFrame({'date': rows, 'fixing': c.series([fx[d] for d in rows])})


def applied(fx, d):
    """the fixing in force on a calendar day: that day's, or the last before it"""
    return fx[max(x for x in fx if x <= d)]


def rate(fx, s, e, kind, n):
    """the coupon rate of [s, e): compounded or averaged over the calendar days, or averaged over the fixing days"""
    days = list(pd.date_range(s, e - DAY))
    if kind == R.SIMPLE_AVERAGE:
        v = [fx[d] for d in days if d in fx]
        return sum(v) / len(v)
    if kind == R.WEIGHTED_AVERAGE:
        return sum(applied(fx, d) for d in days) / len(days)
    g = 1
    for d in days:
        g = g * (1 + applied(fx, d) / n)
    return (g - 1) * n / len(days)


PERIODS = {
    'business days': [('2024-01-08', '2024-01-12'), ('2023-12-18', '2023-12-22')],
    'over a weekend': [('2024-01-04', '2024-01-10')],
    'over holidays': [('2023-12-21', '2024-01-03')],
    'starts on a holiday': [('2023-12-26', '2023-12-29')],
    'starts on a Sunday': [('2023-12-17', '2023-12-21'), ('2024-01-08', '2024-01-10')],
    'ends on a Monday': [('2024-01-03', '2024-01-08')],
    'ends after holidays': [('2023-12-20', '2023-12-27')],
    'ends at the last fixing': [('2024-01-10', '2024-01-13')],
    'ends after the last weekend': [('2024-01-11', '2024-01-15')],
    'starts at the first fixing': [('2023-12-15', '2023-12-20')],
    'one day': [('2024-01-05', '2024-01-06')],
    'the latest first': [('2024-01-09', '2024-01-11'), ('2023-12-19', '2023-12-21'), ('2024-01-02', '2024-01-05')],
}


def overnight(c):
    """compounded and averaged coupon rates of past periods, for every path of fixings"""
    kind = c.choice('kind', list(R))
    basis = c.choice('basis', list(DAYS))
    where = c.choice('periods', list(PERIODS))
    fx, df = history(c, order=c.choice('order', ['oldest first', 'newest first']) if basis == B.ACT_360 else 'shuffled')
    f = c.no_raise('construct', RFRFixings, fixings=df, day_count_basis=basis)
    ps = [(T(s), T(e)) for s, e in PERIODS[where]]
    got = c.no_raise('coupon rates', f.get_coupon_rates, pd.DatetimeIndex([s for s, e in ps]), pd.DatetimeIndex([e for s, e in ps]), kind)
    c.shape('a rate per period', np.asarray(got), (len(ps),))
    for (s, e), r in zip(ps, got):
        c.eq(kind.name.lower().replace('_', ' '), r, rate(fx, s, e, kind, DAYS[basis]))


def every_day(c):
    """a history listed for every calendar day, weekends included"""
    kind = c.choice('kind', list(R))
    fx, df = history(c, every=True)
    f = c.no_raise('construct', RFRFixings, fixings=df, day_count_basis=B.ACT_365)
    ps = [(T('2023-12-15'), T('2023-12-24')), (T('2023-12-30'), T('2024-01-06')), (T('2024-01-07'), T('2024-01-13'))]
    got = c.no_raise('coupon rates', f.get_coupon_rates, pd.Series([s for s, e in ps]), pd.Series([e for s, e in ps]), kind)
    for (s, e), r in zip(ps, got):
        c.eq('rate', r, rate(fx, s, e, kind, 365))


def not_covered(c):
    """periods that need fixings the history does not have are refused"""
    kind = c.choice('kind', list(R))
    fx, df = history(c)
    f = c.no_raise('construct', RFRFixings, fixings=df, day_count_basis=B.ACT_360)
    s, e = c.choice('period', [('2024-01-10', '2024-01-17'), ('2023-12-13', '2023-12-20'), ('2024-02-01', '2024-02-05'), ('2023-11-01', '2023-11-09'),
                               ('2023-12-14', '2024-01-05')])
    ok = ('2024-01-03', '2024-01-05')
    c.raises('refused', ValueError, lambda: f.get_coupon_rates(pd.DatetimeIndex([T(ok[0]), T(s)]), pd.DatetimeIndex([T(ok[1]), T(e)]), kind))


def term(c):
    """a term index look-up returns the fixing of the date asked, or of the last fixing date before it, in the order asked"""
    order = c.choice('order', ['oldest first', 'newest first', 'shuffled'])
    fx, df = history(c, order=order)
    f = c.no_raise('construct', TermFixings, fixings=df, day_count_basis=B.ACT_365)
    ds = c.choice('dates', [['2023-12-15', '2024-01-12', '2023-12-27'], ['2024-01-12', '2023-12-20', '2023-12-20', '2024-01-02'],
                            ['2024-01-06', '2023-12-26', '2023-12-25', '2024-01-01', '2023-12-17'], ['2024-01-09']])
    as_series = c.choice('as', ['index', 'series', 'labelled series'])
    q = pd.DatetimeIndex(ds)
    q = {'index': q, 'series': pd.Series(q), 'labelled series': pd.Series(q, index=range(40, 40 + len(ds)))}[as_series]
    got = c.no_raise('look-up', f.index_historical_fixings, q)
    c.shape('a fixing per date', np.asarray(got), (len(ds),))
    for d, v in zip(ds, got):
        c.eq('the stored fixing' if T(d) in fx else 'the last fixing before', v, applied(fx, T(d)))


def before_history(c):
    """a term look-up before the first fixing is undefined, not borrowed from a later date"""
    fx, df = history(c)
    f = c.no_raise('construct', TermFixings, fixings=df, day_count_basis=B.ACT_365)
    got = c.no_raise('look-up', f.index_historical_fixings, pd.DatetimeIndex(['2023-12-14', '2023-12-18', '2023-11-01']))
    for i, v in enumerate(got):
        if i == 1:
            c.eq('the stored fixing', v, fx[T('2023-12-18')])
        else:
            c.true('undefined', not isinstance(v, N.Node) and v != v)


H = [overnight, every_day, not_covered, term, before_history]

if __name__ == '__main__':
    run('C11', [(h.__name__, h) for h in H], bounds='histories over four weeks around Christmas and New Year with every fixing free; listed periods starting and ending on business days, weekends and holidays; ACT/360, ACT/365 and ACT/366', assumptions=ASSUME_REAL)
