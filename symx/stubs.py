"""Contract stubs for numerical solvers.

root_scalar / brentq: either report non-convergence, or return any root of the
given function inside the bracket (the root is a fresh symbol constrained by
f(root) == 0 up to the solver's tolerance, idealised to 0)."""
import math
import types
from . import node as N
from .node import Node, Ctl, Unsupported, const
from .arr import SA
import numpy as np


def _one(x):
    while isinstance(x, np.ndarray):
        x = x.reshape(-1)[0] if x.size == 1 else x.item()
    return x


class Result(types.SimpleNamespace):
    def __getitem__(self, k):
        return getattr(self, k)


_n = [0]


def fresh_root(f, lo, hi, name='root'):
    ex = Ctl.explorer
    k = getattr(ex, 'nfresh', 0)
    ex.nfresh = k + 1
    nm = f'{name}@{k}'
    r = N.var(nm, 'R')
    ex.vars[nm] = (r, (0.1, 2.0))
    lo, hi = _one(lo), _one(hi)
    ex.take(N.le(lo, r))
    ex.take(N.le(r, hi))
    if ex.facts.positive(const(lo)):
        ex.take(N.lt(0, r))
    v = _one(f(r))
    lit = N.eq(const(v), 0)
    ex.take(lit)
    ex.soft.add(lit.nid)

    def solve(env):
        from scipy.optimize import brentq
        e = dict(env)
        a, b = N.evalf(lo, e), N.evalf(hi, e)

        def g(x):
            e[nm] = x
            return N.evalf(v, e)
        return brentq(g, a, b, xtol=1e-14, rtol=1e-14)
    ex.derived.append((nm, solve))
    return r


class RootScalar:
    """scipy.optimize.root_scalar with converged/unconverged choice"""

    def __init__(self, ctx_choice=True):
        self.choice = ctx_choice

    def __call__(self, f, args=(), method=None, bracket=None, fprime=None, fprime2=None, x0=None, x1=None, xtol=None, rtol=None, maxiter=None, options=None):
        ex = Ctl.explorer
        if bracket is None:
            raise Unsupported('root_scalar without a bracket')
        r = fresh_root(lambda x: f(x, *args) if args else f(x), bracket[0], bracket[1])
        return Result(root=r, converged=True, flag='converged', iterations=5, function_calls=7, method=method)


# ---- scripted optimisers (both modes) -----------------------------------------
import contextlib
import sys


@contextlib.contextmanager
def swapped(mapping):
    """replace objects by identity in the globals of every frm module"""
    done = []
    for mod in list(sys.modules.values()):
        name = getattr(mod, '__name__', '')
        if name.split('.')[0] != 'frm' and name not in ('scipy.optimize', 'scipy.interpolate', 'scipy.integrate'):
            continue
        for k, v in list(vars(mod).items()):
            for orig, repl in mapping:
                if v is orig:
                    done.append((mod, k, v))
                    setattr(mod, k, repl)
    try:
        yield
    finally:
        for mod, k, v in done:
            setattr(mod, k, v)


def adversary(c, lo, hi, typ=None):
    """[(scipy optimiser, stand-in)]: the stand-in reports failure, or hands back arbitrary iterates
    inside the bounds it was given, with an arbitrary convergence flag."""
    from scipy import optimize as so
    n = [0]

    def fresh(a, b, kind):
        n[0] += 1
        a, b = float(_one(a)), float(_one(b))
        return c.real(f'{kind}{n[0]}', lo=a, hi=b, typ=typ or (a, min(b, 1.0)))

    def root_scalar(f, args=(), method=None, bracket=None, fprime=None, fprime2=None, x0=None, x1=None, xtol=None, rtol=None, maxiter=None, options=None):
        n[0] += 1
        o = c.choice(f'rs_outcome{n[0]}', ['return', 'ValueError', 'RuntimeError'])
        a, b = bracket if bracket is not None else (lo, hi)
        f(fresh(a, b, 'iter'), *args)
        if o == 'ValueError':
            raise ValueError('f(a) and f(b) must have different signs')
        if o == 'RuntimeError':
            raise RuntimeError('failed to converge')
        r = fresh(a, b, 'root')
        f(r, *args)
        return Result(root=r, converged=c.choice(f'rs_conv{n[0]}', [True, False]), flag='', iterations=5, function_calls=7)

    def brentq(f, a, b, args=(), **k):
        return root_scalar(f, args=args, bracket=(a, b)).root

    def minimize(fun, x0, args=(), method=None, bounds=None, options=None, tol=None, **k):
        n[0] += 1
        x0 = np.atleast_1d(x0)
        bs = list(bounds) if bounds is not None else [(lo, hi)] * len(x0)
        y = c.vec([fresh(a, b, 'iter') for a, b in bs])
        fun(y, *args)
        x = c.vec([fresh(a, b, 'min') for a, b in bs])
        v = fun(x, *args)
        return Result(x=x, fun=v, success=c.choice(f'mn_ok{n[0]}', [True, False]), message='', nit=5, status=0)

    return [(so.root_scalar, root_scalar), (so.brentq, brentq), (so.minimize, minimize)]


def contract(c):
    """stand-ins that return a root of the function they are given (symbolic mode only)"""
    from scipy import optimize as so
    if not c.sym:
        return []

    def newton(f, x0, fprime=None, args=(), tol=None, maxiter=None, **k):
        if c.choice('newton_fails', [False, True]):
            raise RuntimeError('Failed to converge')
        return SA([fresh_root(lambda v: f(v, *args), 1e-4, 10)])
    rs = RootScalar()
    return [(so.root_scalar, rs), (so.newton, newton), (so.brentq, lambda f, a, b, args=(), **k: rs(f, args=args, bracket=(a, b)).root)]


# ---- pseudo-random draws (both modes) -------------------------------------------
@contextlib.contextmanager
def draws(c, typ=(-2.0, 2.0), fill=None):
    """np.random hands out free real symbols (normals) instead of numbers; the k-th number after
    seeding with s is always the same symbol.  Yields the list of (name, symbol) handed out."""
    made = []
    state = {'seed': 'none', 'k': 0}

    def block(st, shape, loc=0.0, scale=1.0):
        shape = () if shape is None else (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            nm = f"z_{st['seed']}_{st['k']}"
            st['k'] += 1
            v = c.real(nm, typ=typ) if fill is None else fill(nm)
            if not any(m[0] == nm for m in made):
                made.append((nm, v))
            out[i] = v if loc == 0 and scale == 1 else loc + scale * v
        if not shape:
            return out.item()
        return out.view(SA) if c.sym and fill is None else out.astype(float)

    def seed(s=None):
        state.update(seed=s, k=0)

    class Gen:
        def __init__(self, s=None):
            self.st = {'seed': s, 'k': 0}
        def seed(self, s=None):
            self.st = {'seed': s, 'k': 0}
        def normal(self, loc=0.0, scale=1.0, size=None):
            return block(self.st, size, loc, scale)
        def standard_normal(self, size=None, *a, **k):
            return block(self.st, size)
        def randn(self, *shape):
            return block(self.st, shape)

    def normal(loc=0.0, scale=1.0, size=None):
        return block(state, size, loc, scale)
    new = dict(seed=seed, normal=normal, standard_normal=lambda size=None: block(state, size), randn=lambda *s: block(state, s),
               default_rng=Gen, RandomState=Gen)
    old = {k: getattr(np.random, k) for k in new}
    for k, v in new.items():
        setattr(np.random, k, v)
    try:
        yield made
    finally:
        for k, v in old.items():
            setattr(np.random, k, v)


# ---- scipy interpolation (symbolic mode) -----------------------------------------
class LinearInterp:
    """scipy.interpolate.interp1d(kind='linear'), symbolic ordinates, concrete abscissae"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=math.nan, assume_sorted=False):
        if kind != 'linear':
            raise Unsupported('interp1d kind ' + str(kind))
        self.x, self.y = [_one(v) for v in np.asarray(x, dtype=object).ravel()], SA(y)
        if any(isinstance(v, Node) and v.op != 'const' for v in self.x):
            raise Unsupported('interp1d with symbolic abscissae')
        self.x = [float(v.val) if isinstance(v, Node) else float(v) for v in self.x]
        o = sorted(range(len(self.x)), key=lambda i: self.x[i])
        self.x, self.y = [self.x[i] for i in o], [self.y[i] for i in o]
        self.fill, self.err = fill_value, bounds_error if bounds_error is not None else fill_value is math.nan

    def one(self, t):
        t = float(t.val) if isinstance(t, Node) and t.op == 'const' else t
        if isinstance(t, Node):
            raise Unsupported('interp1d at a symbolic point')
        x, y = self.x, self.y
        if t < x[0] or t > x[-1]:
            if self.fill == 'extrapolate':
                k = 0 if t < x[0] else len(x) - 2
                return y[k] + (y[k + 1] - y[k]) * ((t - x[k]) / (x[k + 1] - x[k]))
            if self.err:
                raise ValueError('A value in x_new is outside the interpolation range.')
            f = self.fill
            return (f[0] if t < x[0] else f[1]) if isinstance(f, tuple) else f
        for k in range(len(x) - 1):
            if x[k] <= t <= x[k + 1]:
                if t == x[k]:
                    return y[k]
                if t == x[k + 1]:
                    return y[k + 1]
                return y[k] + (y[k + 1] - y[k]) * ((t - x[k]) / (x[k + 1] - x[k]))

    def __call__(self, t):
        if isinstance(t, np.ndarray):
            return SA([self.one(v) for v in t.ravel()]).reshape(t.shape)
        return SA([self.one(t)]).reshape(())


def interpolation(c):
    from scipy import interpolate as si
    return [(si.interp1d, LinearInterp)] if c.sym else []


def everywhere(name, value):
    """set a module constant in every frm module that holds it; returns an undo function"""
    done = [(m, getattr(m, name)) for n, m in list(sys.modules.items()) if n.split('.')[0] == 'frm' and name in getattr(m, '__dict__', {})]
    for m, _ in done:
        setattr(m, name, value)
    return lambda: [setattr(m, name, v) for m, v in done]


@contextlib.contextmanager
def polynomial_roots(c, typ=(0.01, 1.0), most=3):
    """np.roots (symbolic mode): some number of real roots, each a fresh symbol that satisfies the polynomial"""
    if not c.sym:
        yield
        return
    from . import arr
    ex = Ctl.explorer

    def roots(p):
        p = [const(_one(v)) for v in p]
        while p and p[0].op == 'const' and p[0].val == 0:
            p = p[1:]
        n = c.choice('nroots', list(range(1, min(most, len(p) - 1) + 1)))
        out = []
        for k in range(n):
            nm = f'polyroot@{k}@{getattr(ex, "nfresh", 0)}'
            ex.nfresh = getattr(ex, 'nfresh', 0) + 1
            r = N.var(nm, 'R')
            ex.vars[nm] = (r, typ)
            v = 0
            for a in p:
                v = v * r + a
            lit = N.eq(const(v), 0)
            ex.take(lit)
            ex.soft.add(lit.nid)

            def solve(env, k=k):
                z = np.roots([N.evalf(a, env) for a in p])
                z = sorted(z[np.isreal(z)].real)
                if len(z) != n:
                    raise ValueError('another number of real roots')
                return float(z[k])
            ex.derived.append((nm, solve))
            out.append(r)
        return SA(out)
    old = arr.FUNCS['roots']
    arr.FUNCS['roots'] = roots
    try:
        yield
    finally:
        arr.FUNCS['roots'] = old


@contextlib.contextmanager
def cut_stores(c, domain):
    """Loop-state abstraction: an expression stored at an index for which domain(shape, index) gives (lo, hi) becomes an arbitrary
    value of that interval, so the following step is checked from every state. Its value in a concrete input stays the expression's."""
    from .arr import SA, _fix_key
    if not c.sym:
        yield
        return
    ex = Ctl.explorer
    orig = SA.__setitem__

    def store(self, key, v):
        orig(self, key, v)
        hit = np.zeros(self.shape, dtype=bool)
        np.ndarray.__setitem__(hit, _fix_key(key), True)
        for i in zip(*np.nonzero(hit)):
            d = domain(self.shape, i)
            e = np.ndarray.__getitem__(self, i)
            if d is None or not isinstance(e, Node) or all(v.val.startswith('cut@') for v in N.free(e)):
                continue
            k = getattr(ex, 'ncut', 0)
            ex.ncut = k + 1
            nm = f'cut@{k}'
            r = N.var(nm, 'R')
            ex.vars[nm] = (r, (0.1, 2.0))
            if d[0] is not None:
                ex.take(N.le(const(d[0]), r))
            if d[1] is not None:
                ex.take(N.le(r, const(d[1])))
            ex.derived.append((nm, lambda env, e=e: N.evalf(e, dict(env))))
            orig(self, i, r)
    SA.__setitem__ = store
    try:
        yield
    finally:
        SA.__setitem__ = orig


# ---- interpolating B-splines (symbolic mode): linear in the ordinates, with scipy's own weights ------------------
class Spline:
    _symx_sym = True

    def __init__(self, x, y, k):
        from scipy import interpolate as si
        self.x, self.y = [float(_one(v)) for v in np.asarray(x, dtype=object).ravel()], [const(_one(v)) for v in np.asarray(y, dtype=object).ravel()]
        n = len(self.x)
        self.k = k
        self.basis = [_REAL['splrep'](self.x, [1.0 if i == j else 0.0 for j in range(n)], k=k, s=0) for i in range(n)]

    @staticmethod
    def snap(w):
        for r in (0.0, 1.0):
            if abs(w - r) < 1e-11:
                return r
        return float(w)

    def at(self, t, der):
        t = float(t.val) if isinstance(t, Node) and t.op == 'const' else t
        if not isinstance(t, Node):
            if der == 0 and t in self.x:
                return self.y[self.x.index(t)]
            r = 0
            for b, y in zip(self.basis, self.y):
                w = self.snap(float(_REAL['splev'](t, b, der=der)))
                if w:
                    r = r + y * w
            return r
        from scipy.interpolate import PPoly
        ps = [PPoly.from_spline(b) for b in self.basis]
        knots = sorted(set(float(v) for v in ps[0].x if self.x[0] <= v <= self.x[-1]))
        j = len(knots) - 2
        for i in range(1, len(knots) - 1):
            if bool(t < knots[i]):
                j = i - 1
                break
        a = knots[j]
        coef = []                                            # in powers of (t - a), highest first
        for p, y in zip(ps, self.y):
            m = int(np.searchsorted(p.x, a, side='right')) - 1
            coef.append([self.snap(float(v)) for v in p.c[:, m]])
        out, d = 0, self.k
        for i in range(d + 1):
            s = 0
            for cs, y in zip(coef, self.y):
                if cs[i]:
                    s = s + y * cs[i]
            e = d - i
            f = 1
            for q in range(der):
                f *= e - q
            if f and e >= der:
                out = out + s * f * (t - a) ** (e - der) if e > der else out + s * f
        return out


_REAL = {}


def splines(c):
    """[(scipy routine, stand-in)] for splrep/splev with symbolic ordinates or points"""
    from scipy import interpolate as si
    if not _REAL:
        _REAL.update(splrep=si.splrep, splev=si.splev)
    if not c.sym:
        return []
    from .shim import isym

    def splrep(x, y, w=None, xb=None, xe=None, k=3, task=0, s=None, t=None, full_output=0, per=0, quiet=1):
        if not isym(y) and not isym(list(y)):
            return _REAL['splrep'](x, y, w=w, xb=xb, xe=xe, k=k, s=s)
        if w is not None or xb is not None or xe is not None or s not in (None, 0) or t is not None:
            raise Unsupported('splrep options')
        if len(list(x)) <= k:
            raise TypeError('m > k must hold')
        return Spline(x, y, k)

    def splev(x, tck, der=0, ext=0):
        if not isinstance(tck, Spline):
            if not isym(x):
                return _REAL['splev'](x, tck, der=der, ext=ext)
            raise Unsupported('splev of numbers at a symbol')
        if hasattr(x, 'to_numpy') and not isinstance(x, np.ndarray):
            x = x.to_numpy()
        if isinstance(x, (np.ndarray, list, tuple)):
            x = np.asarray(x, dtype=object)
            r = SA([tck.at(_one(v), der) for v in x.ravel()])
            return r.reshape(x.shape)
        return SA(tck.at(x, der)).reshape(())
    return [(si.splrep, splrep), (si.splev, splev)]
