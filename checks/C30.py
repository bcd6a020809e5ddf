from symx.api import *
import numpy as np
import pandas as pd
from scipy import optimize as so
from symx.stubs import swapped, contract, Result
from checks.C09 import ask, build, table, T, B, CF, LINEAR
from checks.C29 import valued, amounts, schedule, flows, worth, pv, periods, fixings, SIDE, START, CAL, R, X, F, TermRate, PayRcv
from checks.C29 import FixedLeg, FloatTermLeg, FloatRFRLeg, ZerocouponLeg, RFRSwapCurve, TermSwapCurve, RFRFixings, TermFixings
from frm.instruments.swap import Swap

PAY, RCV = PayRcv.PAY, PayRcv.RCV


def curve(c, day, name='df'):
    """discount factors given on every period boundary"""
    d0 = T(day)
    dates = [T(d) for d in ('2023-09-20', '2023-12-20', '2024-03-20', '2024-06-21', '2024-09-20') if T(d) > d0]
    return build(c, d0, table(c, 'date', dates, 'discount_factor', [c.pos(f'{name}{i}', typ=(0.8, 1.02)) for i in range(len(dates))]),
                 day_count_basis=B.ACT_365, interp_method=LINEAR, cal=CAL)


def make(c, kind, side, v, ex, n, p, zc, f, freq=F.QUARTERLY, how=R.WEIGHTED_AVERAGE):
    """one leg; p: its rate or spread, f: the fixings table"""
    k = dict(schedule=schedule(c, ex, n, freq), discount_curve=zc, pay_rcv=side, day_count_basis=B.ACT_365)
    if kind == 'fixed':
        return c.no_raise('leg', FixedLeg, fixed_rate=p, **k)
    if kind == 'zero':
        return c.no_raise('leg', ZerocouponLeg, zero_rate=p, compounding_freq=CF.SIMPLE, **k)
    ix = curve(c, v.strftime('%Y-%m-%d'), name='ix')
    if kind == 'term':
        return c.no_raise('leg', FloatTermLeg, spread=p, forward_rate_type=TermRate.SIMPLE,
                          term_swap_curve=TermSwapCurve(zero_curve=ix, historical_fixings=TermFixings(fixings=f, day_count_basis=B.ACT_365)), **k)
    return c.no_raise('leg', FloatRFRLeg, spread=p, forward_rate_type=how,
                      rfr_swap_curve=RFRSwapCurve(zero_curve=ix, historical_fixings=RFRFixings(fixings=f, day_count_basis=B.ACT_365)), **k)


KINDS = ['fixed', 'zero', 'term', 'overnight']
FIELD = {'fixed': 'fixed_rate', 'zero': 'zero_rate', 'term': 'spread', 'overnight': 'spread'}


def setting(c, day):
    n, _ = amounts(c, 'n', 'one', 1, 1000)
    return n, curve(c, day), fixings(c, T(day), B.ACT_365)[1].copy()


def whole(c):
    """a swap is worth its two legs together, dirty, accrued and clean"""
    day, include, ex = c.choice('case', [('2023-12-20', True, X.BOTH), ('2023-12-28', False, X.NEITHER)])
    k1, k2 = c.choice('first', KINDS), c.choice('second', KINDS)
    s1, s2 = c.choice('sides', [(PAY, RCV), (RCV, PAY)])
    n, zc, f = setting(c, day)
    m = c.real('m', 1, 1000)
    p1, p2 = c.real('p1', -0.2, 1), c.real('p2', -0.2, 1)
    with valued(day, include) as v:
        def both():
            return make(c, k1, s1, v, ex, n, p1, zc, f), make(c, k2, s2, v, ex, m, p2, zc, f, F.SEMIANNUAL)
        a, b = both()
        d, i, cl = [[ask(c, m_, getattr(l, m_)) for l in (a, b)] for m_ in ('calc_dirty_pv', 'calc_accrued_interest', 'calc_clean_pv')]
        sw = c.no_raise('swap', Swap, *both())
        c.eq('dirty', ask(c, 'dirty', sw.calc_dirty_pv), d[0] + d[1])
        c.eq('accrued', ask(c, 'accrued', sw.calc_accrued_interest), i[0] + i[1])
        c.eq('clean', ask(c, 'clean', sw.calc_clean_pv), cl[0] + cl[1])


def refused(c):
    """two pay legs, two receive legs, or a third leg number"""
    day, side, k1, k2 = '2023-12-28', c.choice('side', [PAY, RCV]), c.choice('first', KINDS), c.choice('second', KINDS)
    n, zc, f = setting(c, day)
    p = c.real('p', -0.2, 1)
    with valued(day) as v:
        a, b, d = [make(c, k, s, v, X.BOTH, n, p, zc, f) for k, s in ((k1, side), (k2, side), (k2, RCV if side == PAY else PAY))]
        c.raises('refused', AssertionError, lambda: Swap(a, b))
        sw = c.no_raise('swap', Swap, a, d)
        num = c.choice('number', [0, 3, -1])
        c.raises('refused', ValueError, lambda: sw.target_solve_swap(0.0, num))


def value_at(c, leg, rate):
    """value of the leg were its rate the given one"""
    return ask(c, 'value', leg.calc_dirty_pv, rate)


def solved(c):
    """at the solved rate the leg is worth the target; the leg itself is left as it was"""
    kind, (side, sign) = c.choice('leg', KINDS), c.choice('side', SIDE)
    ex, day, include = c.choice('case', [(X.NEITHER, '2023-11-15', False), (X.START, '2023-09-20', True), (X.END, '2023-12-20', False), (X.BOTH, '2023-12-20', True), (X.BOTH, '2023-12-28', False)])
    if kind == 'overnight' and day > '2023-10':
        day, include = '2023-12-20', False              # no period straddles the value date
    n, zc, f = setting(c, day)
    p = vec(*[c.real(f'p{i}', -0.2, 1) for i in range(4)])
    how = c.choice('how', ['par', 'target', 'par first', 'par second', 'target first', 'target second'])
    goal = c.real('goal', -2000, 2000)
    with valued(day, include) as v:
        def leg():
            return make(c, kind, side, v, ex, n, p, zc, f, how=R.DAILY_COMPOUNDED)
        l = leg()
        other = make(c, 'fixed', RCV if side == PAY else PAY, v, ex, n, p, zc, f, how=R.DAILY_COMPOUNDED)
        first = how.endswith('first')
        with swapped(contract(c)):
            if how == 'par':
                x = ask(c, 'solve', l.par_solve)
            elif how == 'target':
                x = ask(c, 'solve', l.target_solve, goal)
            else:
                sw = c.no_raise('swap', Swap, *((l, other) if first else (other, l)))
                x = ask(c, 'solve', sw.par_solve_each_leg)[0 if first else 1] if how.startswith('par') else ask(c, 'solve', sw.target_solve_swap, goal, 1 if first else 2)
        unchanged(c, l, leg(), FIELD[kind], p)
        if not isinstance(x, Node) and not np.isfinite(x):
            return
        if how.startswith('par'):
            ns = [n] * 4
            goal = sign * sum((a for k, d, a in flows(l.schedule, ns, lambda *_: 0, ex) if k == 'notional' and (d >= v if include else d > v)), 0)
        c.eq('target', value_at(c, leg(), x), goal)


def unchanged(c, l, fresh, field, p):
    fresh.calc_dirty_pv()
    c.eq('accrued as before', ask(c, 'accrued', l.calc_accrued_interest), ask(c, 'accrued', fresh.calc_accrued_interest))
    rows = [i for i in range(len(l.schedule.df)) if pd.notnull(l.schedule.df['period_start'].iloc[i])]
    for i, q in zip(rows, p):
        c.eq('rate as before', l.schedule.df[field].iloc[i], q)
    c.eq('value as before', pv(c, l), pv(c, fresh))


def failed(c):
    """a solver that fails, or does not converge, gives no rate and leaves the leg as it was"""
    kind, ex, (side, sign) = c.choice('leg', KINDS), c.choice('exchange', [X.NEITHER, X.BOTH]), c.choice('side', SIDE)
    day = '2023-12-28'
    n, zc, f = setting(c, day)
    p = vec(*[c.real(f'p{i}', -0.2, 1) for i in range(4)])
    with valued(day) as v:
        l = make(c, kind, side, v, ex, n, p, zc, f)
        how = c.choice('outcome', ['converged', 'not converged', 'ValueError', 'RuntimeError'])
        found = c.real('found', -0.1, 3)

        def solver(fun, bracket=None, **kw):
            fun(bracket[0])
            fun(c.real('tried', -0.1, 3))
            if how.endswith('Error'):
                raise {'ValueError': ValueError, 'RuntimeError': RuntimeError}[how]('failed')
            return Result(root=found, converged=how == 'converged', flag='', iterations=9, function_calls=9)
        with swapped([(so.root_scalar, solver)]):
            x = ask(c, 'solve', l.target_solve, c.real('goal', -2000, 2000))
        unchanged(c, l, make(c, kind, side, v, ex, n, p, zc, f), FIELD[kind], p)
        if how == 'converged':
            c.eq('rate found', x, found)
        else:
            c.true('no rate', not isinstance(x, Node) and bool(np.isnan(x)))


H = [whole, refused, solved, failed]

if __name__ == '__main__':
    run('C30', [(h.__name__, h) for h in H], bounds='pairs of all four leg kinds on a one-year schedule (quarterly against semi-annual), notionals 1 to 1000, rates -20% to 100%, positive curve levels; solved rates in the bracket the code gives the solver (-10% to 300%)', assumptions=ASSUME_REAL + ['root_scalar returns a root of the function it is given inside its bracket (harness solved), or any outcome at all (harness failed)'])
