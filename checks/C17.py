from symx.api import *
from frm.pricing_engine.black76_bachelier import black76_price as b76, black76_sln_to_normal_vol_analytical as b64


def inputs(c, i=''):
    # shifted forward and strike are positive; the raw ones may be negative
    s = c.real('s' + i, lo=0, typ=(0.0, 0.03))
    Fs, Ks = c.pos('Fs' + i, typ=(0.01, 0.1)), c.pos('Ks' + i, typ=(0.01, 0.1))
    tau = c.pos('tau' + i, typ=(0.1, 5))
    vol = c.pos('vol' + i, typ=(0.05, 0.6))
    a = c.pos('a' + i, typ=(0.2, 2))
    return Fs - s, Ks - s, tau, vol, s, a


def kw(F, K, tau, vol, s, a):
    return dict(F=F, K=K, tau=tau, vol_sln=vol, ln_shift=s, annuity_factor=a)


def closed(F, K, tau, vol, s, a, cp):
    d1 = log((F + s) / (K + s)) / (vol * sqrt(tau)) + vol * sqrt(tau) / 2
    d2 = d1 - vol * sqrt(tau)
    return a * cp * ((F + s) * ncdf(cp * d1) - (K + s) * ncdf(cp * d2))


def price(c, label, f=b76, **k):
    return one(c.no_raise(label, f, **k)['price'])


def parity(c):
    x = inputs(c)
    F, K, tau, vol, s, a = x
    c.eq('parity', price(c, 'call', cp=1, **kw(*x)) - price(c, 'put', cp=-1, **kw(*x)), a * (F - K), atol=1e-10)


def form(c):
    x = inputs(c)
    cp = c.choice('cp', [1, -1])
    c.eq('closed_form', price(c, 'price', cp=cp, **kw(*x)), closed(*x, cp), atol=1e-11)


def defaults(c):
    """the annuity factor defaults to one"""
    F, K, tau, vol, s, a = inputs(c)
    cp = c.choice('cp', [1, -1])
    c.eq('closed_form', price(c, 'price', cp=cp, F=F, K=K, tau=tau, vol_sln=vol, ln_shift=s), closed(F, K, tau, vol, s, 1, cp), atol=1e-11)


def shift(c):
    """only the shifted forward and strike matter"""
    x = inputs(c)
    F, K, tau, vol, s, a = x
    cp = c.choice('cp', [1, -1])
    c.eq('shift', price(c, 'price', cp=cp, **kw(*x)), price(c, 'price', cp=cp, **kw(F + s, K + s, tau, vol, 0.0, a)), atol=1e-11)


def expiry(c):
    F, K, tau, vol, s, a = inputs(c)
    cp = c.choice('cp', [1, -1])
    which = c.choice('which', ['expiry', 'vol'])
    if which == 'expiry':
        tau = 0.0
    else:
        vol = 0.0
    r = c.no_raise('price', b76, cp=cp, intrinsic_time_split=True, **kw(F, K, tau, vol, s, a))
    v = a * cp * (F - K)
    c.eq('payoff', one(r['price']), ite(v > 0, v, 0), atol=1e-11)
    c.eq('intrinsic', one(r['intrinsic']), ite(v > 0, v, 0), atol=1e-11)
    c.eq('time', one(r['time']), 0, atol=1e-11)


def split(c):
    x = inputs(c)
    F, K, tau, vol, s, a = x
    cp = c.choice('cp', [1, -1])
    r = c.no_raise('price', b76, cp=cp, intrinsic_time_split=True, **kw(*x))
    v = a * cp * (F - K)
    c.eq('intrinsic', one(r['intrinsic']), ite(v > 0, v, 0), atol=1e-11)
    c.eq('sum', one(r['intrinsic']) + one(r['time']), one(r['price']), atol=1e-11)
    c.eq('price', one(r['price']), closed(*x, cp), atol=1e-11)


def limit(c):
    """the price tends to intrinsic value with the volatility: it stays below forward leg and above nothing as d1 -> d2"""
    x = inputs(c)
    F, K, tau, vol, s, a = x
    cp = c.choice('cp', [1, -1])
    p = price(c, 'price', cp=cp, **kw(*x))
    c.le('upper', p, a * ((F + s) if cp == 1 else (K + s)))


def delta(c):
    x = inputs(c)
    F, K, tau, vol, s, a = x
    cp = c.choice('cp', [1, -1])
    g = c.no_raise('price', b76, cp=cp, analytical_greeks=True, **kw(*x))['analytical_greeks']
    at = lambda f: one(b76(cp=cp, **kw(f, K, tau, vol, s, a))['price'])
    c.eq('delta', one(g['delta']), c.derivative(at, F, h=1e-5), fd=True)


def vega(c):
    x = inputs(c)
    F, K, tau, vol, s, a = x
    cp = c.choice('cp', [1, -1])
    g = c.no_raise('price', b76, cp=cp, analytical_greeks=True, **kw(*x))['analytical_greeks']
    at = lambda v: one(b76(cp=cp, **kw(F, K, tau, v, s, a))['price'])
    c.eq('vega', one(g['vega']) * 100, c.derivative(at, vol), fd=True, atol=1e-6)


def numeric(c):
    x = inputs(c)
    F, K, tau, vol, s, a = x
    cp = c.choice('cp', [1, -1])
    c.assume(vol > 0.011)
    n = c.no_raise('numerical', b76, cp=cp, numerical_greeks=True, **kw(*x))['numerical_greeks']
    pf = lambda f: closed(f, K + s, tau, vol, 0, a, cp)
    pv = lambda v: closed(F + s, K + s, tau, v, 0, a, cp)
    Fs = F + s
    c.eq('delta', one(n['delta']), (pf(Fs * 1.01) - pf(Fs * 0.99)) / (0.02 * Fs))
    c.eq('vega', one(n['vega']), (pv(vol + 0.01) - pv(vol - 0.01)) / 2, atol=1e-11)


def vector(c):
    """a vector call is the scalar calls, element by element (one element at expiry)"""
    a, b = inputs(c, '0'), inputs(c, '1')
    if c.choice('t1', ['pos', 'zero']) == 'zero':
        b = b[:2] + (0.0,) + b[3:]
    cps = c.choice('cps', [(1, -1), (-1, 1), (1, 1)])
    v = [vec(x, y) for x, y in zip(a, b)]
    r = c.no_raise('vector', b76, cp=np.array(cps), intrinsic_time_split=True, analytical_greeks=True, **kw(*v))
    c.shape('shape', r['price'], (2,))
    for i, x in enumerate((a, b)):
        s = c.no_raise('scalar', b76, cp=cps[i], intrinsic_time_split=True, analytical_greeks=True, **kw(*x))
        for k in ('price', 'intrinsic', 'time'):
            c.eq(k, r[k][i], one(s[k]), atol=1e-11)
        if not isinstance(b[2], float) or b[2] > 0:
            for k in ('delta', 'vega'):
                c.eq(k, r['analytical_greeks'][k].iloc[i], one(s['analytical_greeks'][k]), atol=1e-11)


def broadcast(c):
    """one forward and expiry, a vector of strikes and volatilities"""
    F, K, tau, vol, s, a = inputs(c)
    K2, v2 = c.pos('K2', typ=(0.01, 0.1)) - s, c.pos('v2', typ=(0.05, 0.5))
    cps = c.choice('cps', [(1, -1), (-1, 1)])
    r = c.no_raise('vector', b76, cp=np.array(cps), intrinsic_time_split=True, **kw(F, vec(K, K2), tau, vec(vol, v2), s, a))
    c.shape('shape', r['price'], (2,))
    for i in (0, 1):
        v = a * cps[i] * (F - (K, K2)[i])
        c.eq('price', r['price'][i], closed(F, (K, K2)[i], tau, (vol, v2)[i], s, a, cps[i]), atol=1e-11)
        c.eq('intrinsic', r['intrinsic'][i], ite(v > 0, v, 0), atol=1e-11)


if __name__ == '__main__':
    run('C17', [('parity', parity), ('closed_form', form), ('defaults', defaults), ('shift', shift), ('expiry', expiry), ('split', split), ('limit', limit),
                ('delta', delta), ('vega', vega), ('numeric', numeric), ('vector', vector), ('broadcast', broadcast)],
        bounds='scalar calls, vectors of two options, one expiry with two strikes; all reals with positive shifted forward and strike', assumptions=ASSUME_REAL)
