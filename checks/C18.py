from symx.api import *
from frm.pricing_engine.black76_bachelier import bachelier_price as bach


def inputs(c, i=''):
    F, K = c.real('F' + i, typ=(-0.02, 0.1)), c.real('K' + i, typ=(-0.02, 0.1))
    tau = c.pos('tau' + i, typ=(0.1, 5))
    vol = c.pos('vol' + i, typ=(0.002, 0.03))
    a = c.pos('a' + i, typ=(0.2, 2))
    return F, K, tau, vol, a


def kw(F, K, tau, vol, a):
    return dict(F=F, K=K, tau=tau, vol_n=vol, annuity_factor=a)


def closed(F, K, tau, vol, a, cp):
    d = (F - K) / (vol * sqrt(tau))
    return a * (cp * (F - K) * ncdf(cp * d) + vol * sqrt(tau) * npdf(d))


def price(c, label, **k):
    return one(c.no_raise(label, bach, **k)['price'])


def parity(c):
    x = inputs(c)
    F, K, tau, vol, a = x
    c.eq('parity', price(c, 'call', cp=1, **kw(*x)) - price(c, 'put', cp=-1, **kw(*x)), a * (F - K), atol=1e-11)


def form(c):
    x = inputs(c)
    cp = c.choice('cp', [1, -1])
    c.eq('closed_form', price(c, 'price', cp=cp, **kw(*x)), closed(*x, cp), atol=1e-11)


def defaults(c):
    F, K, tau, vol, a = inputs(c)
    cp = c.choice('cp', [1, -1])
    c.eq('closed_form', price(c, 'price', cp=cp, F=F, K=K, tau=tau, vol_n=vol), closed(F, K, tau, vol, 1, cp), atol=1e-11)


def translate(c):
    x = inputs(c)
    F, K, tau, vol, a = x
    h = c.real('h', typ=(-0.05, 0.05))
    cp = c.choice('cp', [1, -1])
    c.eq('translate', price(c, 'price', cp=cp, **kw(F + h, K + h, tau, vol, a)), price(c, 'price', cp=cp, **kw(*x)), atol=1e-11)


def mirror(c):
    """call on (F, K) is the put on (-F, -K)"""
    x = inputs(c)
    F, K, tau, vol, a = x
    c.eq('mirror', price(c, 'call', cp=1, **kw(*x)), price(c, 'put', cp=-1, **kw(-F, -K, tau, vol, a)), atol=1e-11)


def expiry(c):
    F, K, tau, vol, a = inputs(c)
    cp = c.choice('cp', [1, -1])
    if c.choice('which', ['expiry', 'vol']) == 'expiry':
        tau = 0.0
    else:
        vol = 0.0
    r = c.no_raise('price', bach, cp=cp, intrinsic_time_split=True, **kw(F, K, tau, vol, a))
    v = a * cp * (F - K)
    c.eq('payoff', one(r['price']), ite(v > 0, v, 0), atol=1e-11)
    c.eq('intrinsic', one(r['intrinsic']), ite(v > 0, v, 0), atol=1e-11)
    c.eq('time', one(r['time']), 0, atol=1e-11)


def split(c):
    x = inputs(c)
    F, K, tau, vol, a = x
    cp = c.choice('cp', [1, -1])
    r = c.no_raise('price', bach, cp=cp, intrinsic_time_split=True, **kw(*x))
    v = a * cp * (F - K)
    c.eq('intrinsic', one(r['intrinsic']), ite(v > 0, v, 0), atol=1e-11)
    c.eq('sum', one(r['intrinsic']) + one(r['time']), one(r['price']), atol=1e-11)
    c.eq('price', one(r['price']), closed(*x, cp), atol=1e-11)


def setup(c):
    x = inputs(c)
    F, K, tau, vol, a = x
    cp = c.choice('cp', [1, -1])
    g = c.no_raise('price', bach, cp=cp, analytical_greeks=True, **kw(*x))['analytical_greeks']

    def at(F=F, tau=tau, vol=vol):
        return one(bach(cp=cp, **kw(F, K, tau, vol, a))['price'])
    return x, g, at


def delta(c):
    x, g, at = setup(c)
    c.eq('delta', one(g['delta']), c.derivative(lambda v: at(F=v), x[0], h=1e-5), fd=True)


def vega(c):
    x, g, at = setup(c)
    c.eq('vega', one(g['vega']) * 10000, c.derivative(lambda v: at(vol=v), x[3], h=1e-5), fd=True)


def theta(c):
    x, g, at = setup(c)
    c.eq('theta', one(g['theta']) * 365.25, -c.derivative(lambda v: at(tau=v), x[2]), fd=True, atol=1e-6)


def vector(c):
    a, b = inputs(c, '0'), inputs(c, '1')
    if c.choice('t1', ['pos', 'zero']) == 'zero':
        b = b[:2] + (0.0,) + b[3:]
    cps = c.choice('cps', [(1, -1), (-1, 1), (1, 1)])
    v = [vec(x, y) for x, y in zip(a, b)]
    r = c.no_raise('vector', bach, cp=np.array(cps), intrinsic_time_split=True, analytical_greeks=True, **kw(*v))
    c.shape('shape', r['price'], (2,))
    for i, x in enumerate((a, b)):
        s = c.no_raise('scalar', bach, cp=cps[i], intrinsic_time_split=True, analytical_greeks=True, **kw(*x))
        for k in ('price', 'intrinsic', 'time'):
            c.eq(k, r[k][i], one(s[k]), atol=1e-11)
        if not isinstance(x[2], float) or x[2] > 0:
            for k in ('delta', 'vega', 'theta'):
                c.eq(k, r['analytical_greeks'][k].iloc[i], one(s['analytical_greeks'][k]), atol=1e-11)


def broadcast(c):
    F, K, tau, vol, a = inputs(c)
    K2, v2 = c.real('K2', typ=(-0.02, 0.1)), c.pos('v2', typ=(0.002, 0.03))
    cps = c.choice('cps', [(1, -1), (-1, 1)])
    r = c.no_raise('vector', bach, cp=np.array(cps), intrinsic_time_split=True, **kw(F, vec(K, K2), tau, vec(vol, v2), a))
    c.shape('shape', r['price'], (2,))
    for i in (0, 1):
        v = a * cps[i] * (F - (K, K2)[i])
        c.eq('price', r['price'][i], closed(F, (K, K2)[i], tau, (vol, v2)[i], a, cps[i]), atol=1e-11)
        c.eq('intrinsic', r['intrinsic'][i], ite(v > 0, v, 0), atol=1e-11)


if __name__ == '__main__':
    run('C18', [('parity', parity), ('closed_form', form), ('defaults', defaults), ('translate', translate), ('mirror', mirror), ('expiry', expiry), ('split', split),
                ('delta', delta), ('vega', vega), ('theta', theta), ('vector', vector), ('broadcast', broadcast)],
        bounds='scalar calls, vectors of two options, one expiry with two strikes; all reals', assumptions=ASSUME_REAL)
