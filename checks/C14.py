from symx.api import *
from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_price as gk

PRICE = 'price'


def inputs(c, i=''):
    S = c.pos('S' + i, typ=(0.5, 2))
    K = c.pos('K' + i, typ=(0.5, 2))
    tau = c.pos('tau' + i, typ=(0.1, 3))
    vol = c.pos('vol' + i, typ=(0.05, 0.5))
    rd = c.real('rd' + i, typ=(-0.05, 0.1))
    rf = c.real('rf' + i, typ=(-0.05, 0.1))
    return S, K, tau, vol, rd, rf


def closed(S, K, tau, vol, rd, rf, cp):
    d1 = (log(S / K) + (rd - rf + vol * vol / 2) * tau) / (vol * sqrt(tau))
    d2 = (log(S / K) + (rd - rf - vol * vol / 2) * tau) / (vol * sqrt(tau))
    return cp * (S * exp(-rf * tau) * ncdf(cp * d1) - K * exp(-rd * tau) * ncdf(cp * d2))


def price(c, label, **k):
    return one(c.no_raise(label, gk, **k)['price'])


def parity(c):
    S, K, tau, vol, rd, rf = inputs(c)
    call = price(c, 'call', S0=S, tau=tau, r_d=rd, r_f=rf, cp=1, K=K, vol=vol)
    put = price(c, 'put', S0=S, tau=tau, r_d=rd, r_f=rf, cp=-1, K=K, vol=vol)
    c.eq('parity', call - put, S * exp(-rf * tau) - K * exp(-rd * tau))


def parity_fwd(c):
    S, K, tau, vol, rd, rf = inputs(c)
    F = c.pos('F', typ=(0.5, 2))
    call = price(c, 'call', S0=S, tau=tau, r_d=rd, r_f=rf, cp=1, K=K, vol=vol, F=F)
    put = price(c, 'put', S0=S, tau=tau, r_d=rd, r_f=rf, cp=-1, K=K, vol=vol, F=F)
    # the forward implies the domestic discounting: exp(-r tau) = S exp(-rf tau) / F
    c.eq('parity', call - put, S * exp(-rf * tau) / F * (F - K))


def form(c):
    S, K, tau, vol, rd, rf = inputs(c)
    cp = c.choice('cp', [1, -1])
    c.eq('closed_form', price(c, 'price', S0=S, tau=tau, r_d=rd, r_f=rf, cp=cp, K=K, vol=vol), closed(S, K, tau, vol, rd, rf, cp))


def forward(c):
    S, K, tau, vol, rd, rf = inputs(c)
    cp = c.choice('cp', [1, -1])
    a = c.no_raise('spot', gk, S0=S, tau=tau, r_d=rd, r_f=rf, cp=cp, K=K, vol=vol, intrinsic_time_split=True)
    F = S * exp((rd - rf) * tau)
    b = c.no_raise('fwd', gk, S0=S, tau=tau, r_d=c.real('rdx', typ=(-0.1, 0.2)), r_f=rf, cp=cp, K=K, vol=vol, F=F, intrinsic_time_split=True)
    c.eq('forward_price', b['price'], a['price'])
    c.eq('forward_intrinsic', b['intrinsic'], a['intrinsic'])


def split(c):
    S, K, tau, vol, rd, rf = inputs(c)
    cp = c.choice('cp', [1, -1])
    r = c.no_raise('price', gk, S0=S, tau=tau, r_d=rd, r_f=rf, cp=cp, K=K, vol=vol, intrinsic_time_split=True)
    c.eq('sum', one(r['intrinsic']) + one(r['time']), one(r['price']))
    v = cp * (S * exp(-rf * tau) - K * exp(-rd * tau))
    c.eq('intrinsic', one(r['intrinsic']), ite(v > 0, v, 0))


def expiry(c):
    """at expiry the value is the payoff, whether or not a forward is supplied"""
    S, K, tau, vol, rd, rf = inputs(c)
    cp = c.choice('cp', [1, -1])
    F = c.choice('F', [None, 1]) and S
    pay = ite(cp * (S - K) > 0, cp * (S - K), 0)
    r = c.no_raise('price', gk, S0=S, tau=0.0, r_d=rd, r_f=rf, cp=cp, K=K, vol=vol, F=F, intrinsic_time_split=True)
    c.eq('payoff', one(r['price']), pay)
    c.eq('intrinsic', one(r['intrinsic']), pay)
    c.eq('time', one(r['time']), 0)


def vector(c):
    """a vector call is the scalar calls, element by element (one element at expiry)"""
    a, b = inputs(c, '0'), inputs(c, '1')
    t1 = c.choice('t1', ['pos', 'zero'])
    b = b[:2] + ((b[2] if t1 == 'pos' else 0.0),) + b[3:]
    cps = c.choice('cps', [(1, -1), (-1, 1), (1, 1), (-1, -1)])
    S, K, tau, vol, rd, rf = [vec(x, y) for x, y in zip(a, b)]
    r = c.no_raise('vector', gk, S0=S, tau=tau, r_d=rd, r_f=rf, cp=np.array(cps), K=K, vol=vol, intrinsic_time_split=True)
    c.shape('shape', r['price'], (2,))
    for i, x in enumerate((a, b)):
        S, K, tau, vol, rd, rf = x
        s = c.no_raise('scalar', gk, S0=S, tau=tau, r_d=rd, r_f=rf, cp=cps[i], K=K, vol=vol, intrinsic_time_split=True)
        for k in ('price', 'intrinsic', 'time'):
            c.eq(k, r[k][i], one(s[k]))


def broadcast(c):
    """one market, a vector of expiries and strikes"""
    S, K, tau, vol, rd, rf = inputs(c)
    K2, v2, t2 = c.pos('K2', typ=(0.5, 2)), c.pos('v2', typ=(0.05, 0.5)), c.pos('t2', typ=(0.1, 2))
    cps = c.choice('cps', [(1, -1), (-1, 1)])
    r = c.no_raise('vector', gk, S0=S, tau=vec(tau, t2), r_d=rd, r_f=rf, cp=np.array(cps), K=vec(K, K2), vol=vec(vol, v2))
    c.shape('shape', r['price'], (2,))
    for i in (0, 1):
        c.eq('price', r['price'][i], closed(S, (K, K2)[i], (tau, t2)[i], (vol, v2)[i], rd, rf, cps[i]))


def bounds_(c):
    """no-arbitrage: price at least discounted intrinsic of its own put/call pair and below spot/strike leg"""
    S, K, tau, vol, rd, rf = inputs(c)
    cp = c.choice('cp', [1, -1])
    p = price(c, 'price', S0=S, tau=tau, r_d=rd, r_f=rf, cp=cp, K=K, vol=vol)
    c.le('upper', p, S * exp(-rf * tau) if cp == 1 else K * exp(-rd * tau))


if __name__ == '__main__':
    run('C14', [('parity', parity), ('parity_fwd', parity_fwd), ('closed_form', form), ('forward', forward), ('split', split), ('expiry', expiry),
                ('vector', vector), ('broadcast', broadcast), ('upper_bound', bounds_)],
        bounds='scalar calls and vectors of two options; all reals', assumptions=ASSUME_REAL)
