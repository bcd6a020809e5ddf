from symx.api import *
import pandas as pd
from checks.C09 import build, table, ask, T, DAY, B, LINEAR
from checks.C11 import history, rate, applied, HOLIDAYS, DAYS
from frm.enums import RFRFixingCalcMethod as R, TermRate, PeriodFreq
from frm.term_structures.historical_swap_index_fixings import RFRFixings, TermFixings
from frm.term_structures.swap_curve import RFRSwapCurve, TermSwapCurve
from frm.utils.daycount import year_frac

CAL = np.busdaycalendar(holidays=HOLIDAYS)
AVERAGES = [R.WEIGHTED_AVERAGE, R.SIMPLE_AVERAGE]


def market(c, cls, day, basis, last=None):
    """fixings of every level up to the day before the curve date, and a curve of every level after it"""
    d0 = T(day)
    fx, df = history(c, last=last or d0 - DAY)
    dates = [d0 + pd.DateOffset(days=k) for k in (4, 11, 45)]
    zc = build(c, d0, table(c, 'date', dates, 'discount_factor', [c.pos(f'df{i}', typ=(0.9, 1.02)) for i in range(3)]),
               day_count_basis=basis, interp_method=LINEAR, cal=CAL)
    fix = c.no_raise('fixings', RFRFixings if cls is RFRSwapCurve else TermFixings, fixings=df, day_count_basis=basis)
    return d0, fx, zc, c.no_raise('curve', cls, zero_curve=zc, historical_fixings=fix)


def growth(c, zc, s, e):
    a, b = ask(c, 'factor', zc.get_discount_factors, s), ask(c, 'factor', zc.get_discount_factors, e)
    return a / b


def projected(c, zc, s, e, kind, basis):
    """the curve's coupon rate of [s, e)"""
    if kind == R.DAILY_COMPOUNDED:
        return (growth(c, zc, s, e) - 1) / year_frac(s, e, basis)
    ds = [d for d in pd.date_range(s, e - DAY) if kind == R.WEIGHTED_AVERAGE or np.is_busday(d.date(), busdaycal=CAL)]
    return sum((growth(c, zc, d, d + DAY) - 1) * DAYS[basis] for d in ds) / len(ds)


def whole(c, zc, fx, d0, s, e, kind, basis):
    """the coupon rate of [s, e), whichever side of the curve date its days fall on"""
    if e <= d0:
        return rate(fx, s, e, kind, DAYS[basis])
    if s >= d0:
        return projected(c, zc, s, e, kind, basis)
    h, f = rate(fx, s, d0, kind, DAYS[basis]), projected(c, zc, d0, e, kind, basis)
    if kind == R.DAILY_COMPOUNDED:
        a, b, t = year_frac(s, d0, basis), year_frac(d0, e, basis), year_frac(s, e, basis)
        return ((1 + h * a) * (1 + f * b) - 1) / t
    if kind == R.WEIGHTED_AVERAGE:
        m, n = (d0 - s).days, (e - d0).days
    else:
        m, n = [int(np.busday_count(x.date(), y.date(), busdaycal=CAL)) for x, y in ((s, d0), (d0, e))]
    return (m * h + n * f) / (m + n)


LAYOUT = {
    'midweek': ('2024-01-10', [('2024-01-03', '2024-01-17'), ('2023-12-20', '2024-01-03'), ('2024-01-17', '2024-01-31')]),
    'a Monday': ('2024-01-08', [('2023-12-29', '2024-01-12'), ('2024-01-05', '2024-01-09'), ('2024-01-02', '2024-01-08')]),
    'after a holiday': ('2023-12-28', [('2023-12-22', '2024-01-02'), ('2023-12-25', '2024-01-09'), ('2023-12-28', '2024-01-09')]),
    'starts on a holiday': ('2024-01-04', [('2024-01-01', '2024-01-08'), ('2024-01-06', '2024-01-13')]),
    'latest first': ('2024-01-10', [('2024-01-15', '2024-01-22'), ('2024-01-09', '2024-01-11'), ('2023-12-18', '2023-12-22'), ('2024-01-10', '2024-01-12')]),
    'only past': ('2024-01-10', [('2023-12-18', '2023-12-27'), ('2023-12-27', '2024-01-10')]),
    'only future': ('2024-01-10', [('2024-01-10', '2024-01-19'), ('2024-01-19', '2024-01-30')]),
}


def overnight(c):
    """one coupon rate per period, from history, curve or both; the three methods"""
    kind, basis = c.choice('kind', list(R)), c.choice('basis', [B.ACT_360, B.ACT_365])
    day, ps = LAYOUT[c.choice('layout', list(LAYOUT))]
    d0, fx, zc, curve = market(c, RFRSwapCurve, day, basis)
    s, e = pd.DatetimeIndex([p[0] for p in ps]), pd.DatetimeIndex([p[1] for p in ps])
    got = ask(c, 'fixings', curve.get_fixings, s, e, cpn_calc_method=kind)
    c.shape('a rate per period', np.asarray(got), (len(ps),))
    for x, y, r in zip(s, e, got):
        side = 'past' if y <= d0 else 'future' if x >= d0 else 'straddling'
        if side == 'straddling' and kind == R.DAILY_COMPOUNDED:
            # cleared of its denominators: growth over the whole period
            h = 1 + rate(fx, x, d0, kind, DAYS[basis]) * year_frac(x, d0, basis)
            c.eq('straddling', 1 + r * year_frac(x, y, basis), h * growth(c, zc, d0, y))
        else:
            c.eq(side, r, whole(c, zc, fx, d0, x, y, kind, basis))


def only_its_own_side(c):
    """a past period does not move with the curve, a future one does not move with the history"""
    kind = c.choice('kind', list(R))
    d0 = T('2024-01-10')
    fx, df = history(c, last=d0 - DAY)
    dates = [d0 + pd.DateOffset(days=k) for k in (4, 30)]
    f = RFRFixings(fixings=df, day_count_basis=B.ACT_365)
    g = RFRFixings(fixings=pd.DataFrame({'date': df['date'], 'fixing': 0.25}), day_count_basis=B.ACT_365)
    zs = [build(c, d0, table(c, 'date', dates, 'discount_factor', [c.pos(f'{n}{i}', typ=(0.9, 1.02)) for i in range(2)]),
                day_count_basis=B.ACT_365, interp_method=LINEAR, cal=CAL) for n in 'ab']
    s, e = pd.DatetimeIndex(['2023-12-20', '2024-01-10']), pd.DatetimeIndex(['2024-01-10', '2024-01-24'])
    a, b, h = [ask(c, 'fixings', RFRSwapCurve(zero_curve=z, historical_fixings=x).get_fixings, s, e, cpn_calc_method=kind)
               for z, x in ((zs[0], f), (zs[1], f), (zs[0], g))]
    c.eq('past', a[0], b[0])
    c.eq('future', a[1], h[1])


def term(c):
    """a term coupon takes the stored fixing if its period began before the curve date, else the forward rate"""
    kind = c.choice('kind', list(TermRate))
    basis = c.choice('basis', [B.ACT_360, B.ACT_365])
    ps = c.choice('periods', [
        [('2023-12-20', '2023-12-27'), ('2024-01-03', '2024-01-17'), ('2024-01-10', '2024-01-24'), ('2024-01-15', '2024-01-19')],
        [('2024-01-15', '2024-01-22'), ('2024-01-06', '2024-01-13'), ('2023-12-26', '2024-01-10')],
        [('2023-12-18', '2023-12-27'), ('2023-12-27', '2024-01-10')],
        [('2024-01-10', '2024-01-19'), ('2024-01-19', '2024-01-30')]])
    d0, fx, zc, curve = market(c, TermSwapCurve, '2024-01-10', basis)
    s, e = pd.DatetimeIndex([p[0] for p in ps]), pd.DatetimeIndex([p[1] for p in ps])
    got = ask(c, 'fixings', curve.get_fixings, s, e, PeriodFreq.QUARTERLY, kind)
    c.shape('a rate per period', np.asarray(got), (len(ps),))
    for x, y, r in zip(s, e, got):
        if x < d0:
            c.eq('stored fixing', r, applied(fx, x))
            continue
        g, t = growth(c, zc, x, y), year_frac(x, y, basis)
        if kind == TermRate.CONTINUOUS:
            c.eq('forward', r * t, log(g))
        elif kind == TermRate.ANNUAL:
            c.eq('forward', log(1 + r) * t, log(g))
        else:
            c.eq('forward', 1 + r * t, g)


def factors(c):
    """the swap curve discounts with its zero curve"""
    d0, fx, zc, curve = market(c, RFRSwapCurve, '2024-01-10', B.ACT_365)
    ds = pd.date_range(d0, d0 + pd.DateOffset(days=45), freq='5D')
    c.eq('discount factors', ask(c, 'factors', curve.get_discount_factors, ds), ask(c, 'factors', zc.get_discount_factors, ds))


def bases_agree(c):
    """a history on another day count than the curve is refused"""
    d0 = T('2024-01-10')
    cls, fix = c.choice('curve', [(RFRSwapCurve, RFRFixings), (TermSwapCurve, TermFixings)])
    a, b = c.choice('bases', [(B.ACT_360, B.ACT_365), (B.ACT_365, B.ACT_360), (B.ACT_ACT, B.ACT_365)])
    fx, df = history(c, last=d0 - DAY)
    zc = build(c, d0, table(c, 'date', [d0 + DAY], 'discount_factor', [c.pos('df')]), day_count_basis=a, interp_method=LINEAR)
    c.raises('refused', AssertionError, lambda: cls(zero_curve=zc, historical_fixings=fix(fixings=df, day_count_basis=b)))


H = [overnight, only_its_own_side, term, factors, bases_agree]

if __name__ == '__main__':
    run('C12', [(h.__name__, h) for h in H], bounds='a four-week history and a curve of free levels; curve dates on a business day, a Monday and after a holiday; periods before, after and across the curve date; all listed rate types', assumptions=ASSUME_REAL)
