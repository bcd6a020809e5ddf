from symx.api import *
from symx.stubs import draws, interpolation, swapped, everywhere
from frm.pricing_engine.clewlow_strickland_1_factor import clewlow_strickland_1_factor_simulate as simulate


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def run_it(c, curve, sims, seg, T, a, s, batch, fill=None):
    undo = everywhere('MAX_SIMULATIONS_PER_LOOP', batch * seg * T)
    try:
        with draws(c, fill=fill) as made, swapped(interpolation(c)):
            r = c.no_raise('simulate', simulate, curve, sims, seg, T, a, s)
    finally:
        undo()
    return r, made


def curve(c, days):
    """knots at the given days"""
    F = [c.pos(f'F{k}', typ=(0.5, 2)) for k in range(len(days))]
    a = np.empty((len(days), 2), dtype=object)
    for i, (d, f) in enumerate(zip(days, F)):
        a[i] = (float(d), f)
    a = a.view(SA) if c.sym else a.astype(float)

    def at(t):
        for i in range(len(days) - 1):
            if days[i] <= t <= days[i + 1]:
                w = (t - days[i]) / (days[i + 1] - days[i])
                return F[i] if w == 0 else F[i + 1] if w == 1 else F[i] + (F[i + 1] - F[i]) * w
    return a, at


def law(c, T, seg, sims, batch, days):
    a, s = c.pos('alpha', typ=(0.05, 0.9)), c.pos('sigma', typ=(0.05, 0.5))
    fc, F = curve(c, days)
    x, made = run_it(c, fc, sims, seg, T, a, s, batch)
    c.shape('shape', x, (T + 1, sims))
    for p in range(sims):
        c.eq('initial_forward', x[0, p], F(0))
    names = [n for n, _ in made]
    m0, _ = run_it(c, fc, sims, seg, T, a, s, batch, fill=lambda nm: 0.0)
    dt = 1.0 / seg
    q = 1 - a * dt
    # mean of the exponent: at every step the drift that keeps E[S] on the curve,
    # m' = -a (m + V/2) - V'/2 with V(t) = s^2 (1 - exp(-2 a t)) / (2 a)
    mean, var = [0], [0]
    for i in range(T * seg):
        t = i * dt
        V = s * s * (1 - exp(-2 * a * t)) / (2 * a)
        mean.append(mean[-1] + (-a * (mean[-1] + V / 2) - s * s * exp(-2 * a * t) / 2) * dt)
        var.append(var[-1] * q * q + s * s * dt)
    for d in range(1, T + 1):
        for p in range(sims):
            c.eq('mean', log(m0[d, p] / F(d)), mean[d * seg])
    # loadings of every simulated point on every draw
    A = []
    for n in names:
        r, _ = run_it(c, fc, sims, seg, T, a, s, batch, fill=lambda nm: 1.0 if nm == n else 0.0)
        A.append({(d, p): log(r[d, p] / m0[d, p]) for d in range(1, T + 1) for p in range(sims)})
    pts = [(d, p) for d in range(1, T + 1) for p in range(sims)]
    for d, p in pts:
        c.eq('linear', log(x[d, p] / m0[d, p]), total(L[d, p] * z for L, (_, z) in zip(A, made)))
    for d, p in pts:
        for e, r in pts:
            if (d, p) <= (e, r):
                lo, hi = min(d, e), max(d, e)
                want = var[lo * seg] * q ** ((hi - lo) * seg) if p == r else 0
                c.eq('covariance', total(L[d, p] * L[e, r] for L in A), want)


def daily(c):
    law(c, c.choice('T', [1, 2, 3]), 1, c.choice('sims', [1, 2]), 5, [0, 1, 2, 3])


def substeps(c):
    T = c.choice('T', [1, 2])
    law(c, T, c.choice('seg', [2, 4]), c.choice('sims', [1, 2]), 5, [0, 1, 2, 3])


def sparse_curve(c):
    """curve knots further apart than the simulated days"""
    law(c, 3, c.choice('seg', [1, 2]), 1, 5, [0, 2, 4])


def batches(c):
    """more paths than one batch holds, including a partial last batch"""
    T = c.choice('T', [1, 2])
    sims, batch = c.choice('split', [(2, 1), (3, 2), (4, 2), (3, 1)])
    law(c, T, 1, sims, batch, [0, 1, 2])


if __name__ == '__main__':
    run('C25', [('daily', daily), ('substeps', substeps), ('sparse_curve', sparse_curve), ('batches', batches)],
        bounds=dict(days='1-3', substeps='1, 2 or 4 per day', paths='1-4, in batches of 1-5', inputs='all positive forwards, mean reversion and volatility; all draws'),
        assumptions=ASSUME_REAL + ['the underlying numpy generator is a stub: after seeding with s, its k-th standard normal is the free symbol z(s,k)',
                                   'scipy interp1d is replaced by its definition (linear kind)', 'martingale property is that of the declared Euler step: drift exact to first order in the step'])
