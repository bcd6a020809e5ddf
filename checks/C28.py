from symx.api import *
from symx.stubs import cut_stores
from frm.pricing_engine.heston import heston_simulate, heston_simulate_scalar

QE = 'quadratic_exponential'
ABS = 'euler_with_absorption_of_volatility_process'
REF = 'euler_with_reflection_of_volatility_process'


def inputs(c):
    return dict(S0=c.pos('S0', typ=(0.5, 2)), mu=c.real('mu', typ=(-0.05, 0.05)), var0=c.pos('var0', typ=(0.01, 0.2)), vv=c.pos('vv', typ=(0.1, 0.8)),
                kappa=c.pos('kappa', typ=(0.5, 3)), theta=c.pos('theta', typ=(0.01, 0.2)),
                rho=c.real('rho', lo=-1, hi=1, lo_open=True, hi_open=True, typ=(-0.8, 0.8)), tau=c.pos('tau', typ=(0.1, 2)))


def arr(c, x):
    a = np.array(x, dtype=object)
    return a.view(SA) if c.sym else a.astype(float)


def sim(c, k, z, method, scalar):
    """z[step][factor][path] -> x[step][factor][path]; the scalar routine is run path by path"""
    z = arr(c, z)
    if not scalar:
        x = c.no_raise('simulate', heston_simulate, rand_nbs=z, method=method, **k)
        c.shape('shape', x, (z.shape[0] + 1, 2, z.shape[2]))
        return [[[x[i, j, p] for p in range(z.shape[2])] for j in range(2)] for i in range(z.shape[0] + 1)]
    ys = [c.no_raise('simulate', heston_simulate_scalar, rand_nbs=z[:, :, p], method=method, **k) for p in range(z.shape[2])]
    for y in ys:
        c.shape('shape', y, (z.shape[0] + 1, 2))
    return [[[y[i, j] for y in ys] for j in range(2)] for i in range(z.shape[0] + 1)]


def zs(c, steps, paths):
    return [[[c.real(f'z{i}_{j}_{p}', typ=(-2, 2)) for p in range(paths)] for j in range(2)] for i in range(steps)]


def start(c, k, x):
    for p in range(len(x[0][0])):
        c.eq('start_spot', x[0][0][p], k['S0'])
        c.eq('start_variance', x[0][1][p], k['var0'])


def non_negative(c, x):
    for i in range(len(x)):
        for p in range(len(x[0][0])):
            c.true('variance_non_negative', x[i][1][p] >= 0)


def unit(steps, a, b):
    return [[[a], [b]]] + [[[0.0], [0.0]]] * (steps - 1)


def euler(c, scalar):
    k = inputs(c)
    method = c.choice('method', [ABS, REF])
    steps, paths = c.choice('layout', [(1, 1), (1, 2), (2, 1)])
    dt = k['tau'] / steps
    S0, v0 = k['S0'], k['var0']
    vol0 = sqrt(v0) * sqrt(dt)
    # loadings of the first step on its two draws, away from the floor at zero
    base = v0 + k['kappa'] * (k['theta'] - v0) * dt
    c.assume(base - k['vv'] * vol0 > 0)
    r0, r1, r2 = [sim(c, k, unit(steps, *u), method, scalar) for u in ((0.0, 0.0), (1.0, 0.0), (0.0, 1.0))]
    A = [[(r[1][0][0] - r0[1][0][0]) / (S0 * vol0) for r in (r1, r2)], [(r[1][1][0] - r0[1][1][0]) / (k['vv'] * vol0) for r in (r1, r2)]]
    c.eq('correlation', A[0][0] * A[1][0] + A[0][1] * A[1][1], k['rho'])
    c.eq('unit_variance', A[0][0] ** 2 + A[0][1] ** 2, 1)
    c.eq('unit_variance', A[1][0] ** 2 + A[1][1] ** 2, 1)
    z = zs(c, steps, paths)
    x = sim(c, k, z, method, scalar)
    start(c, k, x)
    non_negative(c, x)
    for i in range(steps):
        for p in range(paths):
            w = [A[j][0] * z[i][0][p] + A[j][1] * z[i][1][p] for j in range(2)]
            S, v = x[i][0][p], x[i][1][p]
            c.eq('spot_step', x[i + 1][0][p], S * (1 + k['mu'] * dt + sqrt(v) * sqrt(dt) * w[0]))
            raw = v + k['kappa'] * (k['theta'] - v) * dt + k['vv'] * sqrt(v) * sqrt(dt) * w[1]
            want = ite(raw >= 0, raw, -raw if method == REF else 0.0)
            c.eq('variance_step', x[i + 1][1][p], want)


def euler_vector(c):
    euler(c, False)


def euler_scalar(c):
    euler(c, True)


def moments(k, v, dt):
    """exact conditional mean and variance of the square-root process"""
    e = exp(-k['kappa'] * dt)
    m = k['theta'] + (v - k['theta']) * e
    s2 = v * k['vv'] ** 2 * e * (1 - e) / k['kappa'] + k['theta'] * k['vv'] ** 2 * (1 - e) ** 2 / (2 * k['kappa'])
    return m, s2


def qe_variance(c, k, v, v1, zv, dt, label):
    m, s2 = moments(k, v, dt)
    phi = s2 / m ** 2
    U = ncdf(zv)
    p = (phi - 1) / (phi + 1)
    if bool(phi <= 1.5):
        b2 = 2 / phi - 1 + sqrt(2 / phi * (2 / phi - 1))
        c.eq(label + '_quadratic', v1, m / (1 + b2) * (sqrt(b2) + zv) ** 2)
    elif bool(U <= p):
        c.eq(label + '_zero', v1, 0)
    else:
        c.eq(label + '_exponential', v1, m / (1 - p) * log((1 - p) / (1 - U)))


def qe_spot(c, k, S, v, S1, v1, zs, dt):
    I = (v + v1) / 2 * dt
    x = log(S) + k['mu'] * dt - I / 2 + k['rho'] / k['vv'] * (v1 - v - k['kappa'] * k['theta'] * dt + k['kappa'] * I)
    c.eq('qe_spot_step', S1, exp(x + sqrt((1 - k['rho'] ** 2) * I) * zs))


def qe(c, scalar):
    k = inputs(c)
    steps, paths = 1, 1 if scalar else c.choice('paths', [1, 2])
    dt = k['tau'] / steps

    def hint(env, rng):
        r = rng.random()
        if r < 0.5:
            env.update(var0=0.01, theta=0.01, vv=rng.uniform(0.6, 2), tau=rng.uniform(1, 4), kappa=rng.uniform(0.5, 1))
    c.hint(hint)
    z = zs(c, steps, paths)
    x = sim(c, k, z, QE, scalar)
    start(c, k, x)
    for i in range(steps):
        for p in range(paths):
            S, v, S1, v1 = x[i][0][p], x[i][1][p], x[i + 1][0][p], x[i + 1][1][p]
            qe_variance(c, k, v, v1, z[i][1][p], dt, 'qe')
            qe_spot(c, k, S, v, S1, v1, z[i][0][p], dt)


def qe_vector(c):
    qe(c, False)


def qe_scalar(c):
    qe(c, True)


def qe_second(c, scalar):
    """the second step, from every state the first one can leave"""
    k = inputs(c)
    dt = k['tau'] / 2

    def hint(env, rng):
        if rng.random() < 0.5:
            env.update(var0=0.01, theta=0.01, vv=rng.uniform(0.6, 2), tau=rng.uniform(1, 4), kappa=rng.uniform(0.5, 1))
    c.hint(hint)
    z = zs(c, 2, 1)
    # the first step is taken in the quadratic branch; what it leaves is replaced by an arbitrary log-spot and an arbitrary variance
    m, s2 = moments(k, k['var0'], dt)
    c.assume(s2 / m ** 2 <= 1.5)
    with cut_stores(c, lambda shape, i: ((0, None) if i[1] else (None, None)) if len(shape) > 1 and i[0] == 1 else None):
        x = sim(c, k, z, QE, scalar)
    S, v, S1, v1 = [x[i][j][0] for i in (1, 2) for j in (0, 1)]
    qe_variance(c, k, v, v1, z[1][1][0], dt, 'qe_second')
    qe_spot(c, k, S, v, S1, v1, z[1][0][0], dt)


def qe_second_vector(c):
    qe_second(c, False)


def qe_second_scalar(c):
    qe_second(c, True)


def qe_moments(c):
    """quadratic branch: the simulated variance has the exact mean and variance of the square-root process"""
    k = inputs(c)
    m, s2 = moments(k, k['var0'], k['tau'])
    c.assume(s2 <= 1.5 * m ** 2)
    scalar = c.choice('scalar', [False, True])
    f = lambda z: sim(c, k, [[[0.0], [z]]], QE, scalar)[1][1][0]
    f0, f1, f_1 = f(0.0), f(1.0), f(-1.0)
    # v(z) = f0 + f' z + a z^2
    a, lin = (f1 + f_1) / 2 - f0, (f1 - f_1) / 2
    c.eq('mean', f0 + a, m)
    c.eq('second_moment', lin ** 2 + 2 * a ** 2, s2)


if __name__ == '__main__':
    run('C28', [('euler_vector', euler_vector), ('euler_scalar', euler_scalar), ('qe_vector', qe_vector), ('qe_scalar', qe_scalar), ('qe_second_vector', qe_second_vector), ('qe_second_scalar', qe_second_scalar), ('qe_moments', qe_moments)],
        bounds=dict(layouts='1 step x 1 path, 1 step x 2 paths, 2 steps x 1 path', parameters='all positive spot, variances, vol of vol, reversion and expiry, all drifts, correlations in (-1,1)',
                    draws='all reals', schemes='quadratic exponential, Euler with absorption, Euler with reflection; vectorised and scalar routines'),
        assumptions=ASSUME_REAL)
