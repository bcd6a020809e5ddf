from symx.api import *
from symx.stubs import RootScalar
from scipy.optimize import root_scalar
from frm.pricing_engine import garman_kohlhagen as m
from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_solve_strike_from_delta as sk, garman_kohlhagen_price as gk


def market(c):
    S = c.pos('S', typ=(0.5, 2))
    tau = c.pos('tau', typ=(0.1, 2))
    rd = c.real('rd', typ=(-0.03, 0.08))
    rf = c.real('rf', typ=(-0.03, 0.08))
    return S, tau, rd, rf


def quote(c, i=''):
    vol = c.pos('vol' + i, typ=(0.05, 0.4))
    cp = c.choice('cp' + i, [1, -1])
    d = c.real('d' + i, lo=0, hi=0.5, lo_open=True, hi_open=True, typ=(0.05, 0.45))
    return vol, cp, cp * d


def delta_of(S, tau, rd, rf, F, vol, cp, K, conv):
    """delta of a priced option under the convention"""
    g = gk(S0=S, tau=tau, r_d=rd, r_f=rf, cp=cp, K=K, vol=vol, F=F, analytical_greeks=True)
    a = g['analytical_greeks']
    if conv == 'regular_spot':
        return one(a['spot_delta'])
    if conv == 'regular_forward':
        return one(a['forward_delta'])
    # premium-adjusted: minus the premium in foreign currency
    prem = one(g['price']) / S
    if conv == 'premium_adjusted_spot':
        return one(a['spot_delta']) - prem
    return (one(a['spot_delta']) - prem) * exp(rf * tau)


def regular(conv, fwd):
    def h(c):
        S, tau, rd, rf = market(c)
        vol, cp, d = quote(c)
        F = None
        if fwd:
            F = c.pos('F', typ=(0.5, 2))
        if conv == 'regular_spot':
            c.assume(cp * d * exp(rf * tau) < 1)
        K = one(c.no_raise('strike', sk, S0=S, tau=tau, r_d=rd, r_f=rf, vol=vol, signed_delta=d, delta_convention=conv, F=F))
        c.eq('delta', delta_of(S, tau, rd, rf, F, vol, cp, K, conv), d)
    return h


def adjusted(conv, fwd):
    def h(c):
        S, tau, rd, rf = market(c)
        vol, cp, d = quote(c)
        F = None
        if fwd:
            F = c.pos('F', typ=(0.5, 2))
            Fx = F
        else:
            Fx = S * exp((rd - rf) * tau)
        if conv == 'premium_adjusted_spot':
            c.assume(cp * d * exp(rf * tau) < 1)
        try:
            K = one(c.call(sk, S0=S, tau=tau, r_d=rd, r_f=rf, vol=vol, signed_delta=d, delta_convention=conv, F=F))
        except ValueError:
            # no root in the bracket: the delta is not attainable under this convention and is refused
            return
        c.eq('delta', delta_of(S, tau, rd, rf, Fx, vol, cp, K, conv), d, rtol=1e-5, atol=1e-6)
    return h


def atm(conv, atmc):
    def h(c):
        S, tau, rd, rf = market(c)
        vol = c.pos('vol', typ=(0.05, 0.4))
        d = c.choice('cp', [0.5, -0.5])
        fwd = c.choice('fwd', [False, True])
        F = c.pos('F', typ=(0.5, 2)) if fwd else None
        if conv == 'regular_spot':
            c.assume(exp(rf * tau) < 2)
        K = one(c.no_raise('strike', sk, S0=S, tau=tau, r_d=rd, r_f=rf, vol=vol, signed_delta=d, delta_convention=conv, F=F, atm_delta_convention=atmc))
        if conv == 'regular_spot' and atmc == 'per_delta_convention':
            c.eq('delta', delta_of(S, tau, rd, rf, F, vol, 1 if d > 0 else -1, K, conv), d)
            return
        cc = 'regular_forward' if conv.startswith('regular') else conv
        c.eq('delta_neutral', delta_of(S, tau, rd, rf, F, vol, 1, K, cc) + delta_of(S, tau, rd, rf, F, vol, -1, K, cc), 0)
    return h


def vector(conv):
    def h(c):
        """a vector of quotes gives the strikes of the single quotes"""
        S, tau, rd, rf = market(c)
        v = [c.pos(f'vol{i}', typ=(0.05, 0.4)) for i in range(3)]
        d = c.choice('d', [(-0.25, 0.5, 0.25), (0.1, -0.5, -0.1), (0.5, 0.3, -0.3)])
        F = c.pos('F', typ=(0.8, 1.2)) if c.choice('fwd', [0, 1]) else None
        if conv.endswith('spot'):
            c.assume(exp(rf * tau) < 2)
        try:
            K = c.call(sk, S0=S, tau=tau, r_d=rd, r_f=rf, vol=vec(*v), signed_delta=np.array(d), delta_convention=conv, F=F)
        except ValueError:
            return
        Fx = F if F is not None else S * exp((rd - rf) * tau)
        c.shape('shape', K, (3,))
        for i in range(3):
            if abs(d[i]) == 0.5:
                cc = 'regular_forward' if conv.startswith('regular') else conv
                c.eq('delta_neutral', delta_of(S, tau, rd, rf, Fx, v[i], 1, K[i], cc) + delta_of(S, tau, rd, rf, Fx, v[i], -1, K[i], cc), 0, atol=1e-6)
            else:
                c.eq('delta', delta_of(S, tau, rd, rf, Fx, v[i], int(np.sign(d[i])), K[i], conv), d[i], rtol=1e-5, atol=1e-6)
    return h


H = []
for conv in ('regular_spot', 'regular_forward'):
    for f in (False, True):
        H.append((f'{conv}_{"F" if f else "S"}', regular(conv, f)))
for conv in ('premium_adjusted_spot', 'premium_adjusted_forward'):
    for f in (False, True):
        H.append((f'{conv}_{"F" if f else "S"}', adjusted(conv, f)))
for conv in ('regular_spot', 'regular_forward', 'premium_adjusted_spot', 'premium_adjusted_forward'):
    for a in ('forward', 'per_delta_convention'):
        H.append((f'atm_{conv}_{a}', atm(conv, a)))
    H.append((f'vector_{conv}', vector(conv)))

if __name__ == '__main__':
    run('C16', H, patch=lambda: Patch(extra=[(root_scalar, RootScalar())]),
        bounds='scalar quotes and vectors of three quotes; all market values; |delta| in (0, 0.5] attainable',
        assumptions=ASSUME_REAL + ['scipy.optimize.root_scalar returns a root of the function inside the bracket (stub contract), refusals raise'])
