from symx.api import *
from inspect import signature as sig
from symx.stubs import adversary, swapped, polynomial_roots
from frm.pricing_engine.sabr import calc_sln_vol_for_strike_from_sabr_params as smile, solve_alpha_from_sln_vol as solve_alpha, fit_sabr_params_to_sln_smile as fit


def x_arg(z, r):
    return (sqrt(1 - 2 * r * z + z ** 2) + z - r) / (1 - r)


def lemma_x(c):
    """the denominator x(z) of 2.17 vanishes only at z = 0 (used as a fact by the other harnesses)"""
    r = c.real('rho', lo=-1, hi=1, lo_open=True, hi_open=True, typ=(-0.7, 0.7))
    z = c.real('z', typ=(-2, 2))
    c.assume(lor(z > 0, z < 0))
    a = x_arg(z, r)
    c.true('x_nonzero', lor(a > 1, a < 1))
    c.true('x_defined', a > 0)


def off_money(c, F, K, p):
    """the strike is away from the money; x(z) is then non-zero by lemma_x"""
    L = log(F / K)
    c.assume(lor(L > 1e-6, -L > 1e-6))
    x = log(x_arg(p['volvol'] / p['alpha'] * power(F * K, (1 - p['beta']) / 2) * L, p['rho']))
    if c.sym:
        c.assume(lor(x > 0, x < 0))


def hagan(F, K, tau, a, b, r, v, atm=False):
    """Hagan et al. (2002) 2.17 / 2.18 on the shifted forward and strike"""
    w = power(F * K, (1 - b) / 2)
    t = 1 + ((1 - b) ** 2 / 24 * a ** 2 / (w * w) + r * b * v * a / (4 * w) + (2 - 3 * r ** 2) / 24 * v ** 2) * tau
    if atm:
        return a / w * t
    L = log(F / K)
    z = v / a * w * L
    x = log(x_arg(z, r))
    return a * z / x / (w * (1 + (1 - b) ** 2 / 24 * L ** 2 + (1 - b) ** 4 / 1920 * L ** 4)) * t


def sabr(c, i=''):
    b = c.choice('beta', [0.0, 0.5, 1.0, None])
    if b is None:
        b = c.real('b' + i, lo=0, hi=1, typ=(0.1, 0.9))
    return dict(tau=c.pos('tau' + i, typ=(0.2, 5)), alpha=c.pos('alpha' + i, typ=(0.02, 0.3)), beta=b,
                rho=c.real('rho' + i, lo=-1, hi=1, lo_open=True, hi_open=True, typ=(-0.7, 0.7)), volvol=c.pos('volvol' + i, typ=(0.1, 0.9)))


def market(c):
    s = c.real('s', lo=0, typ=(0.0, 0.03))
    return s, c.pos('Fs', typ=(0.02, 0.1))


def want(F, K, p, atm=False):
    return hagan(F, K, p['tau'], p['alpha'], p['beta'], p['rho'], p['volvol'], atm)


def scalar(c):
    s, F = market(c)
    K = c.pos('Ks', typ=(0.02, 0.1))
    p = sabr(c)
    off_money(c, F, K, p)
    got = c.no_raise('returns', smile, F=F - s, K=K - s, ln_shift=s, **p)
    c.eq('away_from_money', one(got), want(F, K, p))


def at_money(c):
    s, F = market(c)
    p = sabr(c)
    got = c.no_raise('returns', smile, F=F - s, K=F - s, ln_shift=s, **p)
    c.eq('at_money', one(got), want(F, F, p, True))


def strikes(c):
    """one smile, a vector of strikes in every at-the-money pattern"""
    s, F = market(c)
    p = sabr(c)
    pat = c.choice('pattern', [(0,), (1,), (0, 0), (0, 1), (1, 0), (1, 1), (0, 1, 0)])
    Ks = []
    for i, atm in enumerate(pat):
        if atm:
            Ks.append(F)
        else:
            K = c.pos(f'Ks{i}', typ=(0.02, 0.1))
            off_money(c, F, K, p)
            Ks.append(K)
    got = c.no_raise('returns', smile, F=F - s, K=vec(*[K - s for K in Ks]), ln_shift=s, **p)
    got = np.atleast_1d(got)
    c.shape('shape', got, (len(pat),))
    for i, K in enumerate(Ks):
        c.eq('element', got[i], want(F, K, p, bool(pat[i])))


def surface(c):
    """two smiles, one strike each or one strike for both"""
    s = c.real('s', lo=0, typ=(0.0, 0.03))
    F = [c.pos('F0', typ=(0.02, 0.1)), c.pos('F1', typ=(0.02, 0.1))]
    lay = c.choice('layout', ['each', 'atm_first', 'atm_both', 'one'])
    ps = [sabr(c, '_0'), sabr(c, '_1')]
    K = [F[0] if lay in ('atm_first', 'atm_both') else c.pos('K0', typ=(0.02, 0.1)), F[1] if lay == 'atm_both' else c.pos('K1', typ=(0.02, 0.1))]
    if lay == 'one':
        K[1] = K[0]
    for i in range(2):
        if K[i] is not F[i]:
            off_money(c, F[i], K[i], ps[i])
    both = {k: vec(ps[0][k], ps[1][k]) for k in ps[0]}
    Karg = K[0] - s if lay == 'one' else vec(K[0] - s, K[1] - s)
    got = c.no_raise('returns', smile, F=vec(F[0] - s, F[1] - s), K=Karg, ln_shift=s, **both)
    c.shape('shape', got, (2,))
    for i in range(2):
        c.eq('element', got[i], want(F[i], K[i], ps[i], K[i] is F[i]))


def mkroot(c):
    def hint(env, rng):
        env['atm'] = rng.uniform(0.1, 0.3)
    c.hint(hint)


def alpha(c):
    """the solved alpha gives back the at-the-money volatility and is the root nearest to the leading-order value"""
    s, F = market(c)
    p = sabr(c)
    vol = c.pos('atm', typ=(0.1, 0.3))
    p['alpha'] = None
    with polynomial_roots(c):
        try:
            a = c.call(solve_alpha, tau=p['tau'], F=F - s, beta=p['beta'], rho=p['rho'], volvol=p['volvol'], vol_sln_atm=vol, ln_shift=s)
        except ValueError:
            return
    p['alpha'] = one(a)
    c.eq('reprices_atm', want(F, F, p, True), vol)


def setup(c, n=3, shifted=True):
    """n quotes, the middle one at the money"""
    s, F = market(c)
    if not shifted:
        s = 0.0
    tau = c.pos('tau', typ=(0.2, 5))
    vols = [c.pos(f'q{i}', typ=(0.1, 0.3)) for i in range(n)]
    pos = c.choice('atm_at', list(range(n)))
    K = []
    for i in range(n):
        if i == pos:
            K.append(F - s)
        else:
            d = c.pos(f'gap{i}', typ=(0.001, 0.015))
            up = i > pos
            c.assume(d > 1e-7 + 1e-4 * F + 1e-4 * s)
            if not up:
                c.assume(F - d > 0)
            K.append(F - s + d if up else F - s - d)
    return s, F, tau, vols, K, pos


def minimiser(c, seen, flags=(True, False), evaluate=False):
    from scipy import optimize as so
    from symx.stubs import Result

    def minimize(fun, x0, args=(), bounds=None, **k):
        x = []
        for i, (lo, hi) in enumerate(bounds):
            lo, hi = float(lo), 5.0 if hi is None else float(hi)
            x.append(c.real(f'x{i}', lo=lo, hi=hi, typ=(lo, hi)))
        x = c.vec(x)
        seen.append((x, fun(x, *args) if evaluate else 0.0))
        return Result(x=x, fun=seen[-1][1], success=c.choice('ok', list(flags)), message='')
    return [(so.minimize, minimize)]


def calibrate(c):
    """whatever the optimiser returns, the calibrated smile goes through the at-the-money quote and the parameters stay admissible"""
    shifted = c.choice('shifted', [True, False])
    s, F, tau, vols, K, pos = setup(c, shifted=shifted)
    fixed = c.choice('fixed_beta', [0.0, 1.0, 'any', None])
    if fixed == 'any':
        fixed = c.real('fixed', lo=0, hi=1, typ=(0.1, 0.9))
    seen = []
    shift = dict(ln_shift=s) if shifted else {}
    with polynomial_roots(c, most=1), swapped(minimiser(c, seen)):
        try:
            (a, b, r, v), res = c.call(fit, tau=tau, F=F - s, K=vec(*K), vols_sln=vec(*vols), beta_overide=fixed, **shift)
        except ValueError:
            return
    c.true('failure_reported', bool(res.success))
    if fixed is not None:
        c.eq('fixed_beta', b, fixed)
    c.true('beta_range', land(b >= 0, b <= 1))
    c.true('rho_range', land(r >= -1, r <= 1))
    c.true('volvol_range', v > 0)
    p = dict(tau=tau, alpha=a, beta=b, rho=r, volvol=v)
    c.eq('through_atm', want(F, F, p, True), vols[pos])


def objective(c):
    """the quantity minimised is the sum of squared volatility errors of the smile with the trial parameters"""
    s, F, tau, vols, K, pos = setup(c, 2)
    fixed = c.choice('fixed_beta', [0.0, 0.5, None])
    al = c.pos('al', typ=(0.02, 0.2))
    out = [c.pos(f'm{i}', typ=(0.1, 0.3)) for i in range(2)]
    args, seen = [], []

    def smile_(*a, **k):
        args.append(sig(smile).bind(*a, **k).arguments)
        return c.vec(out)

    def alpha_(*a, **k):
        args.append(sig(solve_alpha).bind(*a, **k).arguments)
        return al
    with swapped(minimiser(c, seen, (True,), True) + [(smile, smile_), (solve_alpha, alpha_)]):
        (a, b, r, v), res = c.call(fit, tau=tau, F=F - s, K=vec(*K), vols_sln=vec(*vols), ln_shift=s, beta_overide=fixed)
    x, obj = seen[0]
    x = list(x)
    if fixed is not None:
        x = [fixed] + x
    c.eq('objective', obj, sum((vols[i] - out[i]) ** 2 for i in range(2)))
    c.eq('alpha', a, al)
    for got, w in zip((b, r, v), x):
        c.eq('parameters', got, w)
    for k in args:
        for name, w in dict(tau=tau, F=F - s, beta=x[0], rho=x[1], volvol=x[2], ln_shift=s).items():
            c.eq('trial_' + name, one(k[name]), w)
        if 'alpha' in k:
            c.eq('trial_alpha', one(k['alpha']), al)
            for i in range(2):
                c.eq('trial_strikes', k['K'][i], K[i])
        else:
            c.eq('trial_atm', one(k['vol_sln_atm']), vols[pos])


if __name__ == '__main__':
    run('C21', [('lemma_x', lemma_x), ('scalar', scalar), ('at_money', at_money), ('strikes', strikes), ('surface', surface), ('alpha', alpha, dict(solver_witness=False)), ('calibrate', calibrate, dict(solver_witness=False)), ('objective', objective)],
        bounds=dict(parameters='all positive shifted forwards and strikes, expiries, alphas, vols of vol, correlations in (-1,1); beta 0, 1/2, 1 and any beta in [0,1]',
                    strikes='scalar, up to three strikes of one smile, two smiles', at_the_money='strike equal to the forward, or further than 1e-6 in log-moneyness (the 1e-6 switch region itself is outside)',
                    calibration='three quotes; beta free, or fixed at any value in [0,1]'),
        assumptions=ASSUME_REAL + ['np.roots returns real numbers that satisfy the polynomial', 'scipy.optimize.minimize returns any point inside the bounds it is given and any convergence flag'])
