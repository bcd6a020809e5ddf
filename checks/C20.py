from symx.api import *
from symx.stubs import adversary, swapped, contract
from frm.pricing_engine import black76_bachelier as m
from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_price as gk, garman_kohlhagen_solve_implied_vol as gk_iv

TOL = 1e-5


def cb76(F, K, tau, s, a, v, cp):
    d = log((F + s) / (K + s)) / (v * sqrt(tau))
    w = v * sqrt(tau) / 2
    return a * cp * ((F + s) * ncdf(cp * (d + w)) - (K + s) * ncdf(cp * (d - w)))


def cbach(F, K, tau, a, v, cp):
    d = (F - K) / (v * sqrt(tau))
    return a * (cp * (F - K) * ncdf(cp * d) + v * sqrt(tau) * npdf(d))


def iterate(env, rng):
    return rng.choice([k for k in env if k[:4] in ('iter', 'root', 'min' + k[3:4]) and '@' not in k])


def mk(env):
    s = env['s']
    return env['Fs'] - s, env['Ks'] - s, env['tau'], s, env.get('a', 1), (1, -1)[env.get('cp', 0)]


def root(f, lo, hi):
    from scipy.optimize import brentq
    return float(brentq(f, lo, hi, xtol=1e-15))


def mkt(c):
    s = c.real('s', lo=0, typ=(0.0, 0.03))
    F, K = c.pos('Fs', typ=(0.01, 0.1)) - s, c.pos('Ks', typ=(0.01, 0.1)) - s
    tau = c.pos('tau', typ=(0.1, 5))
    a = c.pos('a', typ=(0.2, 2))
    return F, K, tau, s, a


def close(c, label, p, X, tol=TOL):
    """p is within the relative tolerance of X"""
    e = (p - X) / X
    c.true(label, land(e <= tol * (1 + 1e-6), -e <= tol * (1 + 1e-6)))


def solved(c, f, lo, hi, *a, typ=None, **k):
    """the volatility, or None when the solver reported a failure"""
    try:
        with swapped(adversary(c, lo, hi, typ)):
            return one(c.call(f, *a, **k))
    except (ValueError, RuntimeError):
        return None


def b76_iv(c):
    F, K, tau, s, a = mkt(c)
    cp = c.choice('cp', [1, -1])
    X = c.pos('X', typ=(0.001, 0.05))

    def hint(env, rng):
        F, K, tau, s, a, cp = mk(env)
        env['X'] = cb76(F, K, tau, s, a, env[iterate(env, rng)], cp) * (1 + 5e-6 * rng.uniform(-1, 1))
    c.hint(hint)
    v = solved(c, m.black76_solve_implied_vol, *m.VOL_SLN_BOUNDS, F=F, tau=tau, cp=cp, K=K, ln_shift=s, X=X, annuity_factor=a)
    if v is None:
        return
    close(c, 'reprices', one(m.black76_price(F=F, tau=tau, cp=cp, K=K, vol_sln=v, ln_shift=s, annuity_factor=a)['price']), X)


def bach_iv(c):
    F, K, tau, s, a = mkt(c)
    cp = c.choice('cp', [1, -1])
    X = c.pos('X', typ=(0.001, 0.05))

    def hint(env, rng):
        F, K, tau, s, a, cp = mk(env)
        env['X'] = cbach(F, K, tau, a, env[iterate(env, rng)], cp) * (1 + 5e-6 * rng.uniform(-1, 1))
    c.hint(hint)
    v = solved(c, m.bachelier_solve_implied_vol, *m.VOL_N_BOUNDS, F=F, tau=tau, cp=cp, K=K, X=X, annuity_factor=a, typ=(0.001, 0.05))
    if v is None:
        return
    close(c, 'reprices', one(m.bachelier_price(F=F, tau=tau, cp=cp, K=K, vol_n=v, annuity_factor=a)['price']), X)


def strip_iv(c):
    """one volatility for a strip of two caplets"""
    F, K, tau, s, a = mkt(c)
    F2, t2, a2 = c.pos('Fs2', typ=(0.01, 0.1)) - s, c.pos('tau2', typ=(0.1, 5)), c.pos('a2', typ=(0.2, 2))
    X = c.pos('X', typ=(0.001, 0.05))
    kw = dict(F=vec(F, F2), tau=vec(tau, t2), cp=1, K=K, annuity_factor=vec(a, a2))
    n = c.choice('model', [0, 1])

    def hint(env, rng):
        F, K, tau, s, a, cp = mk(env)
        F2, t2, a2 = env['Fs2'] - s, env['tau2'], env['a2']
        x = env[iterate(env, rng)]
        env['X'] = (cbach(F, K, tau, a, x, 1) + cbach(F2, K, t2, a2, x, 1)) if env['model'] else (cb76(F, K, tau, s, a, x, 1) + cb76(F2, K, t2, s, a2, x, 1))
    c.hint(hint)
    if n:
        v = solved(c, m.bachelier_solve_implied_vol, *m.VOL_N_BOUNDS, X=X, typ=(0.001, 0.05), **kw)
    else:
        v = solved(c, m.black76_solve_implied_vol, *m.VOL_SLN_BOUNDS, X=X, ln_shift=s, **kw)
    if v is None:
        return
    p = m.bachelier_price(vol_n=v, **kw)['price'] if n else m.black76_price(vol_sln=v, ln_shift=s, **kw)['price']
    close(c, 'reprices', p[0] + p[1], X)


def apart(c, F, K):
    c.assume(lor(F - K > 1e-6, K - F > 1e-6))


def sln_to_n(c):
    F, K, tau, s, a = mkt(c)
    vol = c.pos('vol', typ=(0.05, 0.6))
    apart(c, F, K)

    def hint(env, rng):
        F, K, tau, s, a, cp = mk(env)
        X = cb76(F, K, tau, s, 1, env['vol'], 1)
        env[iterate(env, rng)] = root(lambda v: cbach(F, K, tau, 1, v, 1) - X, 1e-4, 1)
    c.hint(hint)
    X = one(m.black76_price(F=F, tau=tau, cp=1, K=K, vol_sln=vol, ln_shift=s)['price'])
    c.assume(X > 1e-12)
    v = solved(c, m.black76_sln_to_normal_vol, *m.VOL_N_BOUNDS, F=F, tau=tau, K=K, vol_sln=vol, ln_shift=s, typ=(0.001, 0.05))
    if v is None:
        return
    close(c, 'reprices', one(m.bachelier_price(F=F, tau=tau, cp=1, K=K, vol_n=v)['price']), X)


def n_to_sln(c):
    F, K, tau, s, a = mkt(c)
    vol = c.pos('vol', typ=(0.001, 0.03))
    if c.choice('atm', [False, True]):
        K = F
        # beyond this a normal at-the-money price exceeds every log-normal one
        c.assume(vol * sqrt(tau) * npdf(0) < F + s)
    else:
        apart(c, F, K)

    def hint(env, rng):
        F, K, tau, s, a, cp = mk(env)
        K = F if env['atm'] else K
        X = cbach(F, K, tau, 1, env['vol'], 1)
        env[iterate(env, rng)] = root(lambda v: cb76(F, K, tau, s, 1, v, 1) - X, 1e-3, 10)
    c.hint(hint)
    X = one(m.bachelier_price(F=F, tau=tau, cp=1, K=K, vol_n=vol)['price'])
    c.assume(X > 1e-12)
    v = solved(c, m.normal_vol_to_black76_sln, *m.VOL_SLN_BOUNDS, F=F, tau=tau, K=K, vol_n=vol, ln_shift=s)
    if v is None:
        return
    close(c, 'reprices', one(m.black76_price(F=F, tau=tau, cp=1, K=K, vol_sln=v, ln_shift=s)['price']), X)


def shift(c):
    F, K, tau, s, a = mkt(c)
    s2 = c.real('s2', lo=0, typ=(0.03, 0.05))
    c.assume(land(F + s2 > 0, K + s2 > 0, F + (s2 - s) > 0))
    vol = c.pos('vol', typ=(0.05, 0.6))

    def hint(env, rng):
        F, K, tau, s, a, cp = mk(env)
        X = cb76(F, K, tau, s, 1, env['vol'], 1)
        env[iterate(env, rng)] = root(lambda v: cb76(F, K, tau, env['s2'], 1, v, 1) - X, 1e-3, 10)
    c.hint(hint)
    X = one(m.black76_price(F=F, tau=tau, cp=1, K=K, vol_sln=vol, ln_shift=s)['price'])
    c.assume(X > 1e-12)
    v = solved(c, m.shift_black76_vol, *m.VOL_SLN_BOUNDS, F=F, tau=tau, K=K, vol_sln=vol, from_ln_shift=s, to_ln_shift=s2)
    if v is None:
        return
    close(c, 'reprices', one(m.black76_price(F=F, tau=tau, cp=1, K=K, vol_sln=v, ln_shift=s2)['price']), X)


def atm_exact(c):
    """the at-the-money conversions are exact inverses of the two price formulas"""
    F, K, tau, s, a = mkt(c)
    vol = c.pos('vol', typ=(0.05, 0.6))
    vn = one(c.no_raise('to normal', m.black76_sln_to_normal_vol, F=F, tau=tau, K=F, vol_sln=vol, ln_shift=s))
    p = one(m.black76_price(F=F, tau=tau, cp=1, K=F, vol_sln=vol, ln_shift=s)['price'])
    c.eq('normal', one(m.bachelier_price(F=F, tau=tau, cp=1, K=F, vol_n=vn)['price']), p)
    vb = one(c.no_raise('to sln', m.normal_vol_atm_to_black76_sln_atm, F=F, tau=tau, vol_n_atm=vn, ln_shift=s))
    c.eq('sln', one(m.black76_price(F=F, tau=tau, cp=1, K=F, vol_sln=vb, ln_shift=s)['price']), p)


def analytic(c):
    """the analytical starting value is Hagan's expansion (B.64)"""
    F, K, tau, s, a = mkt(c)
    vol = c.pos('vol', typ=(0.05, 0.6))
    v = one(c.no_raise('analytic', m.black76_sln_to_normal_vol_analytical, F=F, tau=tau, K=K, vol_sln=vol, ln_shift=s))
    f, k = F + s, K + s
    l2 = log(f / k) * log(f / k)
    num = vol * sqrt(f * k) * (1 + l2 / 24 + l2 * l2 / 1920)
    den = 1 + (1 - l2 / 120) * vol * vol * tau / 24 + vol * vol * vol * vol * tau * tau / 5760
    c.assume(den > 0)
    c.eq('hagan', v * den, num)


def gk_implied(c):
    S, K, tau = c.pos('S', typ=(0.8, 1.2)), c.pos('K', typ=(0.8, 1.2)), c.pos('tau', typ=(0.3, 2))
    rd, rf = c.real('rd', typ=(-0.02, 0.05)), c.real('rf', typ=(-0.02, 0.05))
    cp = c.choice('cp', [1, -1])
    vol = c.pos('vol', typ=(0.05, 0.4))
    X = one(gk(S0=S, tau=tau, r_d=rd, r_f=rf, cp=cp, K=K, vol=vol)['price'])
    with swapped(contract(c)):
        v = one(c.call(gk_iv, S0=S, tau=tau, r_d=rd, r_f=rf, cp=cp, K=K, X=X, vol_guess=0.15))
    if not isinstance(v, Node) and not np.isfinite(v):
        return                     # documented failure value
    c.true('reprices', within(one(gk(S0=S, tau=tau, r_d=rd, r_f=rf, cp=cp, K=K, vol=v)['price']), X, S))


def within(p, X, S):
    e = (p - X) / S
    return land(e <= 1e-4, -e <= 1e-4)


O = dict(solver_witness=0, feas_timeout=0.3, max_validate=12, prove_timeout=30)

if __name__ == '__main__':
    run('C20', [('black76', b76_iv, O), ('bachelier', bach_iv, O), ('strip', strip_iv, O), ('sln_to_normal', sln_to_n, O), ('normal_to_sln', n_to_sln, O), ('shift', shift, O),
                ('atm_exact', atm_exact), ('analytic', analytic), ('garman_kohlhagen', gk_implied)],
        bounds='scalar options and strips of two caplets; all market values; optimisers replaced by an adversary: any failure report or any two iterates inside the bounds with any convergence flag',
        assumptions=ASSUME_REAL + ['the optimiser evaluates the objective it is given and stays inside its bounds (nothing else is assumed of it)',
                                   'for Garman-Kohlhagen the solvers return a root of the function they are given (stub contract), with the documented solver tolerance'])
