from symx.api import *
from frm.pricing_engine.geometric_brownian_motion import simulate_gbm_path


def nd(c, shape, f):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        a[i] = f(i)
    return a.view(SA) if c.sym else a.astype(float)


def step(x, mu, v, dt, z):
    return x * exp((mu - v * v / 2) * dt + v * sqrt(dt) * z)


def simulate(c, T, n, sims, flat):
    S = nd(c, (n,), lambda i: c.pos(f'S{i[0]}', typ=(0.5, 2)))
    sh = (T,) if flat else (T, n)
    nm = lambda i: '_'.join(map(str, i))
    mu = nd(c, sh, lambda i: c.real('mu' + nm(i), typ=(-0.1, 0.1)))
    v = nd(c, sh, lambda i: c.real('v' + nm(i), lo=0, typ=(0.05, 0.5)))
    dt = nd(c, (T,), lambda i: c.pos('dt' + nm(i), typ=(0.1, 1)))
    z = nd(c, (T, n, sims), lambda i: c.real('z' + nm(i), typ=(-2, 2)))
    x = c.no_raise('simulate', simulate_gbm_path, initial_px=S, drift=mu, forward_volatility=v, timestep_length=dt, rand_nbs=z)
    return S, mu.reshape(T, -1), v.reshape(T, -1), dt, z, x


def paths(c, T, n, sims, flat):
    S, mu, v, dt, z, x = simulate(c, T, n, sims, flat)
    c.shape('shape', x, (T + 1, n, sims))
    for j in range(n):
        for k in range(sims):
            c.eq('start', x[0, j, k], S[j])
            for i in range(T):
                c.eq('step', x[i + 1, j, k], step(x[i, j, k], mu[i, j], v[i, j], dt[i], z[i, j, k]))
                c.true('positive', x[i + 1, j, k] > 0)
    if c.sym:
        # each step uses its own draws and nothing later
        for i in range(T + 1):
            used = {m.val for e in x[i].ravel() for m in N.free(e)}
            c.true('no_look_ahead', not any(u[0] == 'z' and int(u[1:].split('_')[0]) >= i for u in used))


def one_factor(c):
    paths(c, c.choice('T', [1, 2, 3, 4]), 1, c.choice('sims', [1, 2, 3]), c.choice('flat', [True, False]))


def several(c):
    paths(c, c.choice('T', [1, 2, 3]), c.choice('n', [2, 3]), c.choice('sims', [1, 2, 3]), False)


def inputs_kept(c):
    """the caller's arrays are not changed, so a second run with them gives the same paths"""
    T, n = c.choice('T', [1, 2]), c.choice('n', [1, 2])
    S, mu, v, dt, z, x = simulate(c, T, n, 2, False)
    S2, mu2, v2, dt2, z2 = [a.copy() for a in (S, mu, v, dt, z)]
    y = c.no_raise('simulate', simulate_gbm_path, initial_px=S, drift=mu, forward_volatility=v, timestep_length=dt, rand_nbs=z)
    c.eq('again', y, x)
    for a, b in ((S, S2), (mu, mu2), (v, v2), (dt, dt2), (z, z2)):
        c.eq('inputs', a, b)


if __name__ == '__main__':
    run('C24', [('one_factor', one_factor), ('several', several), ('inputs_kept', inputs_kept)],
        bounds=dict(steps='1-4 (one factor), 1-3 (several)', factors='1-3', paths='1-3', inputs='all positive spots, real drifts, non-negative volatilities, positive time steps, all draws'),
        assumptions=ASSUME_REAL + ['draws are arguments of the function, hence free symbols; independence of the draws is C23'])
