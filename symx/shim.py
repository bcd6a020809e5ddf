"""Proxies that the frm modules see instead of numpy/scipy/... while a harness
is executed symbolically, and the context manager that installs them.

Only leaf library functions are replaced (documented stubs); the frm functions
themselves are the repository's current source."""
import builtins
import contextlib
import math
import os
import sys
import types
import numpy as np
from fractions import Fraction
from . import node as N
from . import arr
from .node import Node, Unsupported, const, Ctl
from .arr import SA, has_node, OBJ

REPO = os.environ.get('PROJECT_DIR_FRM', '/repo')


def isym(x):
    """does x (value or container) carry symbols or symbolic-array type?"""
    if isinstance(x, (Node, SA)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == OBJ and has_node(x)
    if isinstance(x, (list, tuple)):
        return any(isym(e) for e in x)
    if hasattr(x, 'to_numpy') and hasattr(x, 'index'):
        try:
            return any(str(d) == 'object' for d in (x.dtypes if hasattr(x, 'columns') else [x.dtype])) and has_node(x.to_numpy())
        except Exception:
            return False
    return getattr(x, '_symx_sym', False)


def _lift(x):
    if isinstance(x, (list, tuple)) and isym(x):
        if len({np.shape(e) if isinstance(e, np.ndarray) else () for e in x}) > 1:
            return [_lift(e) for e in x]
        return SA([_lift(e) if isinstance(e, (list, tuple, np.ndarray)) else e for e in x])
    if isinstance(x, np.ndarray) and not isinstance(x, SA) and x.dtype == OBJ:
        return x.view(SA)
    return x


class Wrapped:
    """callable wrapper that promotes symbolic containers to SA"""

    def __init__(self, f, name):
        self.f, self.__name__ = f, name

    def __getattr__(self, k):
        return getattr(self.f, k)

    def __call__(self, *a, **k):
        if any(isym(x) for x in a) or any(isym(x) for x in k.values()):
            if isinstance(self.f, np.ufunc):
                if any(type(x).__module__.startswith('pandas') for x in a):
                    return arr._series_ufunc(self.f.__name__, a)
                return arr.ufunc_dispatch(self.f, '__call__', tuple(_lift(x) for x in a), k)
            a = tuple(_lift(x) for x in a)
            if self.__name__ in arr.FUNCS:
                return arr.FUNCS[self.__name__](*a, **k)
            return arr.function_dispatch(self.f, a, k)
        return self.f(*a, **k)


def _isfloat(dt):
    return arr._is_float_dtype(dt)


def _mkfill(v):
    def f(shape, dtype=None, order='C', **k):
        if not _isfloat(dtype):
            return getattr(np, {0.0: 'zeros', 1.0: 'ones'}.get(v, 'empty'))(_shape(shape), dtype=_dt(dtype))
        a = np.empty(_shape(shape), dtype=object)
        a[...] = v
        return a.view(SA)
    return f


def _dt(d):
    if getattr(d, '_symx_float', False):
        return float
    if getattr(d, '_symx_int', False):
        return int
    return d


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x.__index__()) if isinstance(x, Node) else int(x) for x in s)
    return int(s.__index__()) if isinstance(s, Node) else s


def _full(shape, fill_value, dtype=None, **k):
    if isinstance(fill_value, (bool, np.bool_)) or not (isinstance(fill_value, (float, np.floating, Node)) or isym(fill_value)) and dtype is None:
        return np.full(_shape(shape), fill_value)
    if dtype is not None and not _isfloat(dtype):
        return np.full(_shape(shape), fill_value, dtype=_dt(dtype))
    a = np.empty(_shape(shape), dtype=object)
    a[...] = fill_value if not isinstance(fill_value, Node) else SA(fill_value)
    return a.view(SA)


def _array(x, dtype=None, copy=True, **k):
    ndmin = k.get('ndmin', 0)
    if dtype is not None and not _isfloat(dtype):
        if isym(x):
            return SA(x).astype(_dt(dtype))
        return np.array(x, dtype=_dt(dtype), **k)
    if isinstance(x, SA):
        r = SA(np.array(x, dtype=object, copy=True))
    elif hasattr(x, 'to_numpy') and not isinstance(x, np.ndarray):
        r = x.to_numpy()
        r = r.copy()
    elif isinstance(x, np.ndarray):
        r = x.copy()
    elif isinstance(x, (list, tuple)) and isym(x):
        r = SA(list(x))
    elif isinstance(x, Node):
        r = SA(x)
    else:
        if isinstance(x, (map, zip, types.GeneratorType)):
            return np.array(x, dtype=_dt(dtype), **k)
        if isinstance(x, (list, tuple)) and any(getattr(e, '_symx_date', False) for e in x):
            return SA(list(x))
        r = np.array(x, **k) if dtype is None else np.array(x, dtype=_dt(dtype), **k)
    if isinstance(r, np.ndarray) and r.dtype.kind == 'f':
        r = SA(r)
    while isinstance(r, np.ndarray) and r.ndim < ndmin:
        r = r[None]
    return arr.rewrap(r)


def _asarray(x, dtype=None, **k):
    if isinstance(x, SA) and (dtype is None or _isfloat(dtype)):
        return x
    return _array(x, dtype, **k)


def _atleast1(*xs):
    r = []
    for x in xs:
        if hasattr(x, 'to_numpy') and not isinstance(x, np.ndarray):
            x = x.to_numpy()
        if isinstance(x, np.ndarray) and not isym(x):
            r.append(SA(np.atleast_1d(x)) if x.dtype.kind == 'f' else np.atleast_1d(x))
        elif isym(x):
            r.append(arr._atleast(1)(x))
        else:
            y = np.atleast_1d(x)
            r.append(SA(y) if y.dtype.kind == 'f' else y)
    return r[0] if len(r) == 1 else tuple(r)


def _isscalar(x):
    return True if isinstance(x, Node) else np.isscalar(x)


def _linspace(a, b, num=50, endpoint=True, **k):
    if not isym(a) and not isym(b):
        return SA(np.linspace(a, b, num, endpoint=endpoint))
    d = num - 1 if endpoint else num
    return SA([N.add(a, N.mul(N.div(N.sub(b, a), d), i)) for i in range(num)])


class _NormShim:
    """scipy.stats.norm"""

    @staticmethod
    def _el(f, x, loc=0, scale=1):
        if loc is not 0 or scale is not 1:
            x = (arr._unwrap_series(x) - loc) / scale
        x = arr._unwrap_series(x)
        if isinstance(x, (list, tuple)):
            x = SA(x)
        if isinstance(x, np.ndarray):
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = f(x[i])
            return out.view(SA)
        return f(x)

    def cdf(self, x, loc=0, scale=1):
        return self._el(lambda v: N.ncdf(_fin(v)), x, loc, scale)

    def sf(self, x, loc=0, scale=1):
        return self._el(lambda v: N.sub(1, N.ncdf(_fin(v))), x, loc, scale)

    def pdf(self, x, loc=0, scale=1):
        r = self._el(lambda v: N.npdf(_fin(v)), x, loc, scale)
        return r if scale is 1 else r / scale

    def ppf(self, q, loc=0, scale=1):
        r = self._el(lambda v: N.nppf(_fin(v)), q)
        if loc is not 0 or scale is not 1:
            r = r * scale + loc
        return r


def _fin(v):
    if isinstance(v, np.ndarray):
        v = v.item()
    return v


class _MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    def __getattr__(self, k):
        f = getattr(math, k)
        if k in ('exp', 'log', 'sqrt', 'expm1', 'log1p', 'floor', 'ceil', 'sin', 'cos', 'fabs', 'log2', 'log10', 'isnan', 'isinf', 'isfinite'):
            def g(x, *b):
                if isinstance(x, Node):
                    if k in ('floor', 'ceil'):
                        return x.__floor__() if k == 'floor' else x.__ceil__()
                    r = arr.scal({'fabs': 'absolute'}.get(k, k), (x,))
                    if b:
                        r = r / arr.scal('log', (b[0],))
                    return r
                if isinstance(x, np.ndarray) and x.size == 1 and isym(x):
                    return g(x.item(), *b)
                return f(x, *b)
            return g
        if k == 'pow':
            return lambda a, b: N.power(a, b) if isym(a) or isym(b) else f(a, b)
        if k == 'isclose':
            def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
                if not isym(a) and not isym(b):
                    return f(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
                m = arr._max(abs(a), abs(b))
                return bool(abs(a - b) <= arr._max(rel_tol * m, abs_tol))
            return isclose
        return f


class NPProxy(types.ModuleType):
    def __init__(self, extra=None):
        super().__init__('numpy')
        self._o = dict(zeros=_mkfill(0.0), ones=_mkfill(1.0), empty=_mkfill(math.nan), full=_full, array=_array, asarray=_asarray,
                       asanyarray=_asarray, ascontiguousarray=_asarray, atleast_1d=_atleast1, isscalar=_isscalar, linspace=_linspace,
                       float64=_FloatT, float32=_FloatT)
        self._o['vectorize'] = _vectorize
        self._sub = {}
        for n in ('linalg', 'random', 'fft'):
            self._sub[n] = SubProxy(getattr(np, n))
        if extra:
            self._o.update(extra)

    def __getattr__(self, k):
        o = self.__dict__['_o']
        if k in o:
            return o[k]
        if k in self.__dict__['_sub']:
            return self.__dict__['_sub'][k]
        a = getattr(np, k)
        if isinstance(a, np.ufunc) or (callable(a) and not isinstance(a, type)):
            return Wrapped(a, k)
        return a


class SubProxy(types.ModuleType):
    def __init__(self, m, over=None):
        super().__init__(m.__name__)
        self._m, self._o = m, over or {}

    def __getattr__(self, k):
        if k in self.__dict__['_o']:
            return self.__dict__['_o'][k]
        a = getattr(self.__dict__['_m'], k)
        if callable(a) and not isinstance(a, type):
            return Wrapped(a, k)
        return a


def _vectorize(f, *a, **k):
    def g(*xs):
        arrs = [x if isinstance(x, np.ndarray) else SA(x) for x in map(arr._unwrap_series, xs)]
        sh = np.broadcast_shapes(*[x.shape for x in arrs])
        bs = [np.broadcast_to(np.asarray(x), sh) for x in arrs]
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(sh):
            out[i] = f(*[b[i] for b in bs])
        return out.view(SA) if sh else out.item()
    return g


class _FloatMeta(type):
    _symx_float = True

    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, Node) and x.sort == 'R'


class _FloatT(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, Node):
            return N.toreal(x)
        if isinstance(x, np.ndarray) and x.size == 1 and isym(x):
            return cls(x.item())
        return float(x)


class _IntMeta(type):
    _symx_int = True

    def __instancecheck__(cls, x):
        return isinstance(x, int) or isinstance(x, Node) and x.sort == 'I'


class _IntT(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, Node):
            if x.sort == 'I':
                return x
            return x.__trunc__()
        return int(x, *a)


def _isinstance(x, cls):
    if isinstance(x, Node):
        cs = cls if isinstance(cls, tuple) else (cls,)
        for c in cs:
            if isinstance(c, types.UnionType):
                if _isinstance(x, c.__args__):
                    return True
                continue
            if c in (float, np.floating, np.float64, _FloatT):
                if x.sort == 'R':
                    return True
            elif c in (int, np.integer, np.int64, _IntT):
                if x.sort in 'IB':
                    return True
            elif c in (np.number, complex) or getattr(c, '__name__', '') in ('Number', 'Real', 'Complex'):
                if x.sort != 'B':
                    return True
            elif c is bool or c is np.bool_:
                if x.sort == 'B':
                    return True
            elif c is Node or c is object:
                return True
        return False
    if getattr(x, '_symx_sym', False) and hasattr(x, '_symx_isinstance'):
        return x._symx_isinstance(cls)
    if isinstance(cls, tuple):
        return any(_isinstance(x, c) for c in cls)
    if cls is _FloatT:
        cls = float
    if cls is _IntT:
        cls = int
    return isinstance(x, cls)


def _round(x, n=None):
    if isinstance(x, Node):
        raise Unsupported('round of a symbolic value')
    return round(x, n)


BUILTINS = {'isinstance': _isinstance, 'float': _FloatT, 'int': _IntT}


class Patch:
    """Installs the proxies into the globals of the frm modules."""

    def __init__(self, extra=None, np_extra=None, modules=None, builtins_=True, attrs=None):
        """extra: {original object: replacement}; attrs: [(obj, name, value)]"""
        import scipy.stats
        self.np = NPProxy(np_extra)
        self.map = {}
        self.keep = []
        self.norm = _NormShim()
        self._put(np, self.np)
        self._put(scipy.stats.norm, self.norm)
        self._put(math, _MathShim())
        for k in ('exp', 'log', 'sqrt', 'pi'):
            pass
        for o, r in (extra or []):
            self._put(o, r)
        from . import pdshim
        self.attrs = pdshim.ATTRS + list(attrs or [])
        self.builtins_ = builtins_
        self.saved = None
        self.names = None
        self._called = set()
        self._wrap_imports()

    def _put(self, o, r):
        self.map[id(o)] = r
        self.keep.append(o)

    def _wrap_imports(self):
        pass

    def mods(self):
        return [m for n, m in sorted(sys.modules.items()) if m is not None and (n == 'frm' or n.startswith('frm.'))]

    def install(self):
        assert self.saved is None
        self.saved = []
        for m in self.mods():
            d = m.__dict__
            for k, v in list(d.items()):
                if k.startswith('__'):
                    continue
                r = self.map.get(id(v))
                if r is not None:
                    self.saved.append((d, k, v, True))
                    d[k] = r
                elif hasattr(v, 'py_func') and type(v).__module__.startswith('numba'):
                    self.saved.append((d, k, v, True))
                    d[k] = v.py_func
                elif isinstance(v, np.ufunc):
                    self.saved.append((d, k, v, True))
                    d[k] = Wrapped(v, k)
            if self.builtins_:
                for k, v in BUILTINS.items():
                    if k not in d:
                        self.saved.append((d, k, None, False))
                        d[k] = v
        for o, k, v in self.attrs:
            self.saved.append((o, k, getattr(o, k), 'attr'))
            setattr(o, k, v)
        self._trace(True)

    def uninstall(self):
        self._trace(False)
        for d, k, v, had in reversed(self.saved):
            if had == 'attr':
                setattr(d, k, v)
            elif had:
                d[k] = v
            else:
                d.pop(k, None)
        self.saved = None

    @contextlib.contextmanager
    def active(self):
        self.install()
        try:
            yield self
        finally:
            self.uninstall()

    @contextlib.contextmanager
    def suspended(self):
        if self.saved is None:
            yield
            return
        ex, Ctl.explorer = Ctl.explorer, None
        self.uninstall()
        try:
            yield
        finally:
            self.install()
            Ctl.explorer = ex

    # which of the repository's functions were executed symbolically
    def _trace(self, on):
        mon = sys.monitoring
        tid = 4
        if on:
            if mon.get_tool(tid) is None:
                mon.use_tool_id(tid, 'symx')
            def start(code, off):
                fn = code.co_filename
                if fn.startswith(REPO):
                    self._called.add(os.path.relpath(fn, REPO) + ':' + code.co_qualname)
                return mon.DISABLE
            mon.register_callback(tid, mon.events.PY_START, start)
            mon.set_events(tid, mon.events.PY_START)
        else:
            mon.set_events(tid, 0)

    def called(self):
        return [c for c in self._called if '<lambda>' not in c and '<module>' not in c and '<listcomp>' not in c and '<genexpr>' not in c]
