from symx.api import *
from symx.stubs import draws
from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs, normal_corr


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def generate(c, anti, steps, factors, sims, seed=0):
    k = dict(nb_steps=steps, nb_rand_vars=factors, nb_simulations=sims, apply_antithetic_variates=anti)
    if seed:
        k['random_seed'] = seed
    with draws(c) as made:
        r = c.no_raise('generate', generate_rand_nbs, **k)
    return r, [v for _, v in made]


def names(a):
    return {v.val for x in a.ravel() for v in N.free(x)}


def independent(c, label, a, zs):
    """the entries are a length-preserving linear image of the draws: independent standard normals"""
    c.eq(label + '_variance', total(x * x for x in a), total(z * z for z in zs))


def plain(c):
    steps, factors, sims = c.choice('steps', [1, 2, 3]), c.choice('factors', [1, 2, 3]), c.choice('sims', [1, 2, 3, 4, 5])
    r, zs = generate(c, False, steps, factors, sims)
    c.shape('shape', r, (steps, factors, sims))
    independent(c, 'plain', list(r.ravel()), zs)


def antithetic(c):
    steps, factors, sims = c.choice('steps', [1, 2, 3]), c.choice('factors', [1, 2, 3]), c.choice('sims', [2, 3, 4, 5, 6, 7, 8])
    r, zs = generate(c, True, steps, factors, sims)
    c.shape('shape', r, (steps, factors, sims))
    base = []
    for i in range(steps):
        for j in range(factors):
            for k in range(0, sims - 1, 2):
                c.eq('pair_is_negative', r[i, j, k + 1], -r[i, j, k])
            base += [r[i, j, k] for k in range(0, sims, 2)]
    # pairs are mutually independent, and so is the unpaired path of an odd count
    independent(c, 'pairs', base, zs)


def seeds(c):
    """the numbers depend on the seed and on nothing drawn before"""
    anti = c.choice('anti', [False, True])
    s = c.choice('seed', [0, 7])
    with draws(c):
        a = c.no_raise('generate', generate_rand_nbs, nb_steps=2, nb_rand_vars=2, nb_simulations=3, apply_antithetic_variates=anti, random_seed=s)
        o = c.no_raise('generate', generate_rand_nbs, nb_steps=2, nb_rand_vars=2, nb_simulations=3, apply_antithetic_variates=anti, random_seed=s + 1)
        b = c.no_raise('generate', generate_rand_nbs, nb_steps=2, nb_rand_vars=2, nb_simulations=3, apply_antithetic_variates=anti, random_seed=s)
    c.eq('same_seed', a, b)
    if c.sym:
        shared = names(a) & names(o)
        c.true('other_seed', len(shared) == 0)


def refused(c):
    """antithetic variates need two paths"""
    with draws(c):
        c.raises('one_path', (ValueError, AssertionError), generate_rand_nbs, nb_steps=1, nb_rand_vars=1, nb_simulations=1, apply_antithetic_variates=True)


def matrix(c, n):
    r = {(i, j): c.real(f'r{i}{j}', lo=-1, hi=1, lo_open=True, hi_open=True, typ=(-0.8, 0.8)) for i in range(n) for j in range(i)}
    if n == 3:
        a, b, d = r[1, 0], r[2, 0], r[2, 1]
        c.assume(1 + 2 * a * b * d - a * a - b * b - d * d > 1e-6)
    return [[1.0 if i == j else r[max(i, j), min(i, j)] for j in range(n)] for i in range(n)]


def arr2(c, rows):
    a = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, x in enumerate(rows):
        a[i, :] = x
    return a.view(SA) if c.sym else a.astype(float)


def correlated(c):
    """out = A z with A A' = C, at every step and on every path"""
    n = c.choice('n', [1, 2, 3])
    C = matrix(c, n)
    Cm = arr2(c, C)
    A = c.no_raise('corr', normal_corr, Cm, arr2(c, [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]))
    # row k is the image of the k-th unit vector
    c.shape('corr_shape', A, (n, n))
    for i in range(n):
        for j in range(i + 1):
            c.eq('covariance', total(A[k, i] * A[k, j] for k in range(n)), C[i][j])
    sims = c.choice('sims', [0, 1, 2])
    steps = 2
    sh = (steps, n) if sims == 0 else (steps, n, sims)
    z = np.empty(sh, dtype=object)
    for q, i in enumerate(np.ndindex(sh)):
        z[i] = c.real(f'z{q}', typ=(-2, 2))
    z = z.view(SA) if c.sym else z.astype(float)
    u = c.no_raise('corr', normal_corr, Cm, z)
    c.shape('corr_shape', u, sh)
    for i in np.ndindex(sh):
        t, f, rest = i[0], i[1], i[2:]
        c.eq('linear', u[i], total(A[k, f] * z[(t, k) + rest] for k in range(n)))


if __name__ == '__main__':
    run('C23', [('plain', plain), ('antithetic', antithetic), ('seeds', seeds), ('refused', refused), ('correlated', correlated)],
        bounds=dict(draws='all reals (every outcome of the underlying generator)', steps='1-3', factors='1-3', paths='1-5 plain, 2-8 antithetic, odd and even',
                    correlation='all 2x2 correlations in (-1,1); all positive definite 3x3 with determinant above 1e-6'),
        assumptions=ASSUME_REAL + ['the underlying numpy generator is a stub: after seeding with s, its k-th standard normal is the free symbol z(s,k)'])
