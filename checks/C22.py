from symx.api import *
from frm.pricing_engine.volatility_generic import forward_volatility, flat_forward_interp

TV = (0.05, 0.6)


def pillar(c, k, n=1):
    t1 = c.pos(f't1{k}', typ=(0.1, 2))
    return t1, c.pos(f'dt{k}', typ=(0.1, 2)), c.pos(f'v1{k}', typ=TV), c.pos(f'v2{k}', typ=TV)


def consistency(c):
    """variance to t1 plus forward variance is variance to t2; falling total variance is an error"""
    t1, dt, v1, v2 = pillar(c, '')
    t2 = t1 + dt
    falls = v2 ** 2 * t2 < v1 ** 2 * t1
    try:
        f = one(c.call(forward_volatility, t1, v1, t2, v2))
    except ValueError:
        c.true('only_raises_when_variance_falls', falls)
        return
    c.true('falling_variance_raises', lnot(falls))
    c.eq('variance', v1 ** 2 * t1 + f ** 2 * dt, v2 ** 2 * t2)
    c.true('non_negative', f >= 0)


def consistency_vec(c):
    """element by element, up to three pillars; any arbitrage anywhere is an error"""
    n = c.choice('n', [2, 3])
    ps = [pillar(c, i) for i in range(n)]
    a = [vec(*x) for x in zip(*[(p[0], p[2], p[0] + p[1], p[3]) for p in ps])]
    falls = [p[3] ** 2 * (p[0] + p[1]) < p[2] ** 2 * p[0] for p in ps]
    try:
        f = c.call(forward_volatility, *a)
    except ValueError:
        c.true('only_raises_when_variance_falls', lor(*falls))
        return
    c.shape('shape', f, (n,))
    for i in range(n):
        c.true('falling_variance_raises', lnot(falls[i]))
        c.eq('variance', ps[i][2] ** 2 * ps[i][0] + f[i] ** 2 * ps[i][1], ps[i][3] ** 2 * (ps[i][0] + ps[i][1]))


def from_spot(c):
    """first expiry today: the forward volatility is the second pillar's"""
    t2, v1, v2 = c.pos('t2'), c.pos('v1', typ=TV), c.pos('v2', typ=TV)
    if c.choice('as_vector', [False, True]):
        f = c.no_raise('from_spot', forward_volatility, vec(0.0, 0 * t2), vec(v1, v1), vec(t2, t2), vec(v2, v2))
    else:
        f = c.no_raise('from_spot', forward_volatility, 0.0, v1, t2, v2)
    c.eq('from_spot', f, v2)


def chain(c):
    """forward variances chain over three expiries"""
    t1, d1, v1, v2 = pillar(c, '')
    d2, v3 = c.pos('d2', typ=(0.1, 2)), c.pos('v3', typ=TV)
    t2, t3 = t1 + d1, t1 + d1 + d2
    try:
        f = c.call(forward_volatility, vec(t1, t2), vec(v1, v2), vec(t2, t3), vec(v2, v3))
        g = one(c.call(forward_volatility, t1, v1, t3, v3))
    except ValueError:
        raise Stop()
    c.eq('chain', f[0] ** 2 * d1 + f[1] ** 2 * d2, g ** 2 * (d1 + d2))


def reversed_times(c):
    """an end before the start is refused, whatever the other elements are"""
    t2, d, v1, v2 = pillar(c, '')
    t1 = t2 + d
    k = c.choice('others', ['none', 'good', 'equal'])
    if k == 'none':
        c.raises('reversed', ValueError, forward_volatility, t1, v1, t2, v2)
    else:
        s, e, w = pillar(c, 'b')[:3]
        e = s if k == 'equal' else s + e
        o = c.choice('order', [False, True])
        args = [(t1, s), (v1, w), (t2, e), (v2, 2 * w if k == 'good' else w)]
        c.raises('reversed', ValueError, forward_volatility, *[vec(*(x[::-1] if o else x)) for x in args])


def equal_times(c):
    """an empty gap has no forward volatility: NaN there, and only there"""
    t, d, v1, v2 = pillar(c, '')
    if c.choice('scalar', [False, True]):
        f = one(c.no_raise('equal', forward_volatility, t, v1, t, v2))
        c.eq('equal_is_nan', f, float('nan'))
    else:
        s, e, w, x = pillar(c, 'b')
        c.assume(x ** 2 * (s + e) >= w ** 2 * s)
        f = c.no_raise('equal', forward_volatility, vec(t, s), vec(v1, w), vec(t, s + e), vec(v2, x))
        c.eq('equal_is_nan', f[0], float('nan'))
        c.eq('other', w ** 2 * s + f[1] ** 2 * e, x ** 2 * (s + e))


def interp(c):
    """n dates by two smile columns, as the volatility surface calls it: total variance is linear between the pillars"""
    n = c.choice('n', [1, 2])
    col = lambda xs: np.array(xs, dtype=object).reshape(n, -1).view(SA) if c.sym else np.array(xs).reshape(n, -1)
    t1s, t2s, ts, w1, w2 = [], [], [], [], []
    for i in range(n):
        t1, dt = c.pos(f't1{i}', typ=(0.1, 2)), c.pos(f'dt{i}', typ=(0.1, 2))
        where = c.choice(f'where{i}', ['inside', 'start', 'end', 'same'])
        u = c.real(f'u{i}', lo=0, hi=1, typ=(0, 1))
        if where == 'same':
            dt = 0 * dt
        u = {'start': 0, 'end': 1}.get(where, u)
        t1s.append(t1); t2s.append(t1 + dt); ts.append(t1 + u * dt)
        for j in range(2):
            a = c.pos(f'a{i}{j}', typ=TV)
            b = a if where == 'same' else c.pos(f'b{i}{j}', typ=TV)
            w1.append(a); w2.append(b)
    T1, T2, T, V1, V2 = col(t1s), col(t2s), col(ts), col(w1), col(w2)
    try:
        f = c.call(flat_forward_interp, T1, V1, T2, V2, T)
    except ValueError:
        c.true('only_raises_when_variance_falls', lor(*[V2[i, j] ** 2 * T2[i, 0] < V1[i, j] ** 2 * T1[i, 0] for i in range(n) for j in range(2)]))
        return
    c.shape('interp_shape', f, (n, 2))
    for i in range(n):
        for j in range(2):
            a, b = V1[i, j] ** 2 * T1[i, 0], V2[i, j] ** 2 * T2[i, 0]
            c.true('falling_variance_raises', b >= a)
            c.eq('linear_variance', f[i, j] ** 2 * T[i, 0] * (T2[i, 0] - T1[i, 0]), a * (T2[i, 0] - T[i, 0]) + b * (T[i, 0] - T1[i, 0]))
            if c.sym or t1s[i] == t2s[i]:
                if N.const(T2[i, 0] - T1[i, 0]).op == 'const' if c.sym else True:
                    c.eq('at_pillar', f[i, j], V1[i, j])


if __name__ == '__main__':
    run('C22', [('consistency', consistency), ('consistency_vec', consistency_vec), ('from_spot', from_spot), ('chain', chain),
                ('reversed_times', reversed_times), ('equal_times', equal_times), ('interp', interp)],
        bounds=dict(times='all positive reals', vols='all positive reals', pillars='scalar, 2 and 3 element vectors; surface interpolation of 1-2 dates by 2 smile columns',
                    interpolation='every point between the pillars, and both pillars, and coinciding pillars'),
        assumptions=ASSUME_REAL)
