from symx.api import *
from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_price as gk
from C14 import inputs


def price_fn(c, cp, S, K, tau, vol, rd, rf, **over):
    def at(**k):
        d = dict(S0=S, tau=tau, r_d=rd, r_f=rf, cp=cp, K=K, vol=vol)
        d.update(k)
        return one(gk(**d)['price'])
    return at


def setup(c):
    S, K, tau, vol, rd, rf = inputs(c)
    cp = c.choice('cp', [1, -1])
    g = c.no_raise('price', gk, S0=S, tau=tau, r_d=rd, r_f=rf, cp=cp, K=K, vol=vol, analytical_greeks=True)['analytical_greeks']
    return S, K, tau, vol, rd, rf, cp, g, price_fn(c, cp, S, K, tau, vol, rd, rf)


def delta(c):
    S, K, tau, vol, rd, rf, cp, g, at = setup(c)
    d = c.derivative(lambda x: at(S0=x), S)
    c.eq('spot_delta', one(g['spot_delta']), d, fd=True)
    c.eq('forward_delta', one(g['forward_delta']) * exp(-rf * tau), d, fd=True)


def gamma(c):
    S, K, tau, vol, rd, rf, cp, g, at = setup(c)
    c.eq('gamma', one(g['gamma']) * 100, S * c.derivative(lambda x: at(S0=x), S, order=2), fd=True)


def vega(c):
    S, K, tau, vol, rd, rf, cp, g, at = setup(c)
    c.eq('vega', one(g['vega']) * 100, c.derivative(lambda x: at(vol=x), vol), fd=True)


def theta(c):
    S, K, tau, vol, rd, rf, cp, g, at = setup(c)
    c.eq('theta', one(g['theta']) * 365.25, -c.derivative(lambda x: at(tau=x), tau), fd=True)


def rho(c):
    S, K, tau, vol, rd, rf, cp, g, at = setup(c)
    c.eq('rho', one(g['rho']) * 100, c.derivative(lambda x: at(r_d=x), rd), fd=True)


def vector(c):
    a, b = inputs(c, '0'), inputs(c, '1')
    cps = c.choice('cps', [(1, -1), (-1, 1)])
    S, K, tau, vol, rd, rf = [vec(x, y) for x, y in zip(a, b)]
    r = c.no_raise('vector', gk, S0=S, tau=tau, r_d=rd, r_f=rf, cp=np.array(cps), K=K, vol=vol, analytical_greeks=True)['analytical_greeks']
    for i, x in enumerate((a, b)):
        S, K, tau, vol, rd, rf = x
        s = c.no_raise('scalar', gk, S0=S, tau=tau, r_d=rd, r_f=rf, cp=cps[i], K=K, vol=vol, analytical_greeks=True)['analytical_greeks']
        for k in ('spot_delta', 'forward_delta', 'vega', 'theta', 'gamma', 'rho'):
            c.eq(k, r[k].iloc[i], s[k].iloc[0])


def fwd_supplied(c):
    """supplying the parity forward changes no sensitivity"""
    S, K, tau, vol, rd, rf, cp, g, at = setup(c)
    F = S * exp((rd - rf) * tau)
    h = c.no_raise('fwd', gk, S0=S, tau=tau, r_d=rd, r_f=rf, cp=cp, K=K, vol=vol, F=F, analytical_greeks=True)['analytical_greeks']
    for k in ('spot_delta', 'forward_delta', 'vega', 'theta', 'gamma', 'rho'):
        c.eq(k, one(h[k]), one(g[k]))


def numeric(c):
    """finite-difference sensitivities are the documented central differences of the price"""
    S, K, tau, vol, rd, rf, cp, g, at = setup(c)
    c.assume(vol > 0.011)
    c.assume(tau > 0.01)
    n = c.no_raise('numerical', gk, S0=S, tau=tau, r_d=rd, r_f=rf, cp=cp, K=K, vol=vol, numerical_greeks=True)['numerical_greeks']
    c.eq('spot_delta', one(n['spot_delta']), (at(S0=S * 1.01) - at(S0=S * 0.99)) / (0.02 * S))
    c.eq('forward_delta', one(n['forward_delta']), one(n['spot_delta']) * exp(rf * tau))
    c.eq('vega', one(n['vega']), (at(vol=vol + 0.01) - at(vol=vol - 0.01)) / 2)
    h = 1 / 365.25
    c.eq('theta', one(n['theta']), (at(tau=tau - h) - at(tau=tau + h)) / 2)
    c.eq('rho', one(n['rho']), (at(r_d=rd + 0.01) - at(r_d=rd - 0.01)) / 2)
    gd = lambda s: one(gk(S0=s, tau=tau, r_d=rd, r_f=rf, cp=cp, K=K, vol=vol, analytical_greeks=True)['analytical_greeks']['spot_delta'])
    c.eq('gamma', one(n['gamma']), (gd(S * 1.01) - gd(S * 0.99)) / 2)


if __name__ == '__main__':
    run('C15', [('delta', delta), ('gamma', gamma), ('vega', vega), ('theta', theta), ('rho', rho), ('vector', vector),
                ('forward_supplied', fwd_supplied), ('numeric', numeric)],
        bounds='scalar calls and vectors of two options, expiry > 0; all reals', assumptions=ASSUME_REAL)
