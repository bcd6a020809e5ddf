"""Object-dtype numpy arrays of symbolic values, and the numpy functions over them."""
import bisect
import math
import numpy as np
from . import node as N
from .node import Node, Ctl, Unsupported, const

OBJ = np.dtype(object)


def has_node(x):
    if isinstance(x, Node):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != OBJ:
            return False
        return any(has_node(e) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_node(e) for e in x)
    return getattr(x, '_symx_sym', False)


def _is_float_dtype(dt):
    if dt is None:
        return True
    if dt is float or dt is object or dt is complex:
        return True
    try:
        return np.dtype(dt).kind in 'fOc'
    except TypeError:
        return getattr(dt, '_symx_float', False)


class SA(np.ndarray):
    """Symbolic array: ndarray subclass with dtype object."""

    def __new__(cls, data):
        if isinstance(data, SA):
            return data
        if isinstance(data, np.ndarray):
            if data.dtype == OBJ:
                return data.view(SA)
            a = np.empty(data.shape, dtype=object)
            a[...] = data
            return a.view(SA)
        if isinstance(data, (list, tuple)):
            return _from_nested(data).view(SA)
        a = np.empty((), dtype=object)
        a[()] = data
        return a.view(SA)

    def __array_finalize__(self, obj):
        pass

    def astype(self, dtype, *a, **k):
        if getattr(dtype, '_symx_float', False):
            dtype = float
        if getattr(dtype, '_symx_int', False):
            dtype = int
        if isinstance(dtype, str) and dtype[:2] in ('da', 'ti', 'M8', 'm8') and not has_node(self) and not any(getattr(e, '_symx_date', False) or getattr(e, '_symx_sym', False) for e in self.flat):
            return np.array(self, dtype=object).astype(dtype, *a, **k)
        if has_node(self) or self.dtype == OBJ and not _all_num(self):
            if dtype is bool or (not isinstance(dtype, str) and dtype in (np.bool_,)):
                return _as_bool(self)
            return self.copy()
        if _is_float_dtype(dtype):
            if self.dtype == OBJ:
                return SA(np.array(self, dtype=object, copy=True))
        return np.asarray(self).astype(dtype, *a, **k)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, args, kwargs)

    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, _fix_key(key))
        return r

    def __setitem__(self, key, v):
        if isinstance(v, Node):
            w = np.empty((), dtype=object)
            w[()] = v
            v = w
        elif not isinstance(v, np.ndarray) and hasattr(v, 'to_numpy'):
            v = v.to_numpy()
        key = _fix_key(key)
        if isinstance(v, np.ndarray) and v.ndim == 0:
            # an element assignment on an object array would store the array itself
            k = key if isinstance(key, tuple) else (key,)
            if len(k) == self.ndim and all(isinstance(i, (int, np.integer)) and not isinstance(i, (bool, np.bool_)) for i in k):
                v = v.item()
        np.ndarray.__setitem__(self, key, v)

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return bool(self.flat[0])

    def __float__(self):
        return float(self.item())

    # reductions as methods (numpy's C paths call ufunc.reduce, which dispatches)
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _reduce('add', self, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _reduce('multiply', self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _reduce('maximum', self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _reduce('minimum', self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return _reduce('logical_and', self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return _reduce('logical_or', self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _mean(self, axis, keepdims)

    def cumsum(self, axis=None, **k):
        return _accumulate('add', self, axis)

    def cumprod(self, axis=None, **k):
        return _accumulate('multiply', self, axis)

    def dot(self, o):
        return matmul(self, o)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def argmax(self, axis=None, **k):
        return _argext(self, True)

    def argmin(self, axis=None, **k):
        return _argext(self, False)

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = np.maximum(r, lo)
        if hi is not None:
            r = np.minimum(r, hi)
        return r

    def round(self, *a, **k):
        raise Unsupported('round of symbolic array')

    def std(self, axis=None, ddof=0, **k):
        return np.sqrt(self.var(axis=axis, ddof=ddof))

    def var(self, axis=None, ddof=0, **k):
        m = _mean(self, axis, True)
        d = self - m
        s = _reduce('add', d * d, axis, False)
        n = self.size if axis is None else self.shape[axis]
        return s / (n - ddof)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return self * 0

    @property
    def values(self):
        return self

    def map(self, f):
        return SA([f(e) for e in self.flat])


def _all_num(a):
    return all(N.is_num(e) for e in a.flat)


def _from_nested(x):
    def shp(v):
        if isinstance(v, (list, tuple)):
            if len(v) == 0:
                return (0,)
            s = [shp(e) for e in v]
            if any(t != s[0] for t in s):
                raise ValueError('setting an array element with a sequence: inhomogeneous shape')
            return (len(v),) + s[0]
        if isinstance(v, np.ndarray):
            return v.shape
        return ()
    s = shp(x)
    a = np.empty(s, dtype=object)

    def fill(v, pre):
        if isinstance(v, (list, tuple)):
            for i, e in enumerate(v):
                fill(e, pre + (i,))
        elif isinstance(v, np.ndarray):
            for idx in np.ndindex(v.shape):
                a[pre + idx] = v[idx]
        else:
            a[pre] = v
    fill(x, ())
    return a


def _as_bool(a):
    r = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(a.shape):
        r[i] = bool(np.ndarray.__getitem__(a, i))
    return r


def _fix_key(key):
    if isinstance(key, Node):
        if key.sort == 'B':
            return bool(key)
        return key.__index__()
    if hasattr(key, 'to_numpy') and not isinstance(key, np.ndarray):
        key = key.to_numpy()
    if isinstance(key, np.ndarray) and key.dtype == OBJ:
        if key.size == 0:
            return np.zeros(key.shape, dtype=int)
        f = key.flat[0]
        if isinstance(f, (bool, np.bool_)) or (isinstance(f, Node) and f.sort == 'B'):
            return _as_bool(key)
        return np.array([int(e.__index__()) for e in key.flat], dtype=int).reshape(key.shape)
    if isinstance(key, list) and any(isinstance(e, Node) for e in key):
        return _fix_key(SA(key))
    if isinstance(key, tuple):
        return tuple(_fix_key(k) for k in key)
    return key


# ---- scalar semantics of ufuncs --------------------------------------------
def _real(f):
    def g(*a):
        with np.errstate(all='ignore'):
            return f(*a)
    return g


def _sgn(a):
    if not isinstance(a, Node):
        return np.sign(a)
    if bool(a > 0):
        return const(1)
    if bool(a < 0):
        return const(-1)
    return const(0)


def _max(a, b):
    if _isnan(a) or _isnan(b):
        return math.nan
    if N.is_nonfinite(a) or N.is_nonfinite(b):
        return a if bool(a >= b) else b
    return lazy_ite(N.ge(a, b), a, b)


def _min(a, b):
    if _isnan(a) or _isnan(b):
        return math.nan
    if N.is_nonfinite(a) or N.is_nonfinite(b):
        return a if bool(a <= b) else b
    return lazy_ite(N.le(a, b), a, b)


def lazy_ite(c, a, b):
    """a if c else b, kept as one term when the path does not settle c"""
    if not isinstance(c, Node):
        return a if c else b
    ex = Ctl.explorer
    if ex is None or not ex.opts.get('lazy', True):
        return a if bool(c) else b
    t = ex.facts.truth(c)
    if t is None and c.nid in ex.known:
        t = ex.known[c.nid]
    if t is not None:
        return a if t else b
    return N.ite(c, a, b)


def _isnan(a):
    return isinstance(a, (float, np.floating)) and math.isnan(a)


def _fpow(a, b):
    return N.power(a, b)


def _u1(f):
    return f


SCAL = {
    'add': N.add, 'subtract': N.sub, 'multiply': N.mul, 'divide': N.div, 'true_divide': N.div,
    'floor_divide': N.floordiv, 'remainder': N.mod, 'mod': N.mod, 'power': N.power, 'float_power': N.power,
    'negative': lambda a: N.mul(-1, a), 'positive': lambda a: a, 'absolute': abs, 'fabs': abs,
    'exp': N.exp, 'log': N.log, 'sqrt': N.sqrt,
    'exp2': lambda a: N.power(2, a),
    'expm1': lambda a: N.sub(N.exp(a), 1), 'log1p': lambda a: N.log(N.add(1, a)),
    'log2': lambda a: N.div(N.log(a), N.log(const(2))), 'log10': lambda a: N.div(N.log(a), N.log(const(10))),
    'square': lambda a: N.mul(a, a), 'reciprocal': lambda a: N.div(1, a), 'cbrt': lambda a: N.power(a, N.Fraction(1, 3)),
    'sign': _sgn, 'maximum': _max, 'minimum': _min, 'fmax': _max, 'fmin': _min,
    'greater': N.gt, 'greater_equal': N.ge, 'less': N.lt, 'less_equal': N.le, 'equal': N.eq, 'not_equal': N.ne,
    'logical_and': N.land, 'logical_or': N.lor, 'logical_not': N.lnot,
    'logical_xor': lambda a, b: N.ne(N.ite(a, 1, 0), N.ite(b, 1, 0)),
    'bitwise_and': N.land, 'bitwise_or': N.lor, 'invert': N.lnot,
    'bitwise_xor': lambda a, b: N.ne(N.ite(a, 1, 0), N.ite(b, 1, 0)),
    'isnan': lambda a: False, 'isinf': lambda a: False, 'isfinite': lambda a: True,
    'floor': N.floor_, 'ceil': lambda a: N.mul(-1, N.floor_(N.mul(-1, a))),
    'sin': lambda a: N.fn('sin', a), 'cos': lambda a: N.fn('cos', a), 'arctan': lambda a: N.fn('arctan', a),
    'sinh': lambda a: (N.exp(a) - N.exp(N.mul(-1, a))) / 2, 'cosh': lambda a: (N.exp(a) + N.exp(N.mul(-1, a))) / 2,
    'tanh': lambda a: (N.exp(N.mul(2, a)) - 1) / (N.exp(N.mul(2, a)) + 1),
    'conjugate': lambda a: a, 'conj': lambda a: a,
}
PYBOOL = {'logical_and': lambda a, b: bool(a) and bool(b), 'logical_or': lambda a, b: bool(a) or bool(b),
          'logical_not': lambda a: not bool(a), 'bitwise_and': lambda a, b: a & b, 'bitwise_or': lambda a, b: a | b,
          'invert': lambda a: (not a) if isinstance(a, (bool, np.bool_)) else ~a}


def scal(name, args):
    """Apply a ufunc to scalars (Nodes or numbers or other Python objects)."""
    if any(isinstance(a, Node) for a in args):
        f = SCAL.get(name)
        if f is None:
            raise Unsupported(f'numpy.{name} on symbolic values')
        if any(not isinstance(a, Node) and not N.is_num(a) for a in args):
            # dates and other proxies: python operator
            return _pyop(name, args)
        return f(*args)
    if any(getattr(a, '_symx_sym', False) for a in args):
        return _pyop(name, args)
    if name in PYBOOL:
        return PYBOOL[name](*args)
    if name in ('isnan',) and not all(N.is_num(a) for a in args):
        return args[0] != args[0]
    with np.errstate(all='ignore'):
        if all(N.is_num(a) for a in args):
            args = tuple(float(a) if isinstance(a, N.Fraction) else a for a in args)
            if all(isinstance(a, (int, float)) and not isinstance(a, bool) for a in args) and name in ('divide', 'true_divide'):
                args = tuple(np.float64(a) for a in args)
            if name in _EXACT and all(not N.is_nonfinite(a) for a in args):
                # keep concrete arithmetic exact: fold to rational constants
                if any(isinstance(a, (float, np.floating)) for a in args):
                    r = SCAL[name](*[const(a) for a in args])
                    return r
            return getattr(np, name)(*args)
        return getattr(np, name)(*[np.asarray(a, dtype=object) if not N.is_num(a) else a for a in args])


_EXACT = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'exp', 'log', 'sqrt', 'power', 'square', 'expm1', 'log1p'}

import operator as _op
_PY = {'add': _op.add, 'subtract': _op.sub, 'multiply': _op.mul, 'divide': _op.truediv, 'true_divide': _op.truediv,
       'floor_divide': _op.floordiv, 'greater': _op.gt, 'greater_equal': _op.ge, 'less': _op.lt, 'less_equal': _op.le,
       'equal': _op.eq, 'not_equal': _op.ne, 'negative': _op.neg, 'absolute': abs,
       'maximum': lambda a, b: a if bool(a >= b) else b, 'minimum': lambda a, b: a if bool(a <= b) else b,
       'isnan': lambda a: False, 'isnat': lambda a: False, 'isfinite': lambda a: True,
       'exp': lambda a: a.exp(), 'log': lambda a: a.log(), 'sqrt': lambda a: a.sqrt(), 'power': _op.pow,
       'square': lambda a: a * a, 'conjugate': lambda a: a.conjugate()}


def _pyop(name, args):
    if name not in _PY:
        raise Unsupported(f'numpy.{name} on {[type(a).__name__ for a in args]}')
    return _PY[name](*args)


def _unwrap_series(x):
    if not isinstance(x, np.ndarray) and hasattr(x, 'to_numpy') and (hasattr(x, 'index') or type(x).__name__ in ('Index', 'RangeIndex', 'Float64Index', 'Int64Index')):
        return x.to_numpy()
    return x


def ufunc_dispatch(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    # let pandas take over when a Series/DataFrame is among the inputs
    for x in inputs:
        if type(x).__module__.startswith('pandas') and hasattr(x, '__array_ufunc__') and method == '__call__':
            ins = [np.asarray(i) if isinstance(i, SA) else i for i in inputs]
            ins = [i.__array__() if isinstance(i, Node) else i for i in ins]
            return _series_ufunc(name, inputs)
    if method == '__call__':
        if name == 'matmul':
            return matmul(*inputs)
        out = kwargs.get('out')
        where = kwargs.get('where', True)
        r = elementwise(name, inputs)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if where is True:
                o[...] = r
            else:
                for i in np.ndindex(o.shape):
                    if bool(np.broadcast_to(where, o.shape)[i]):
                        o[i] = r[i]
            return o
        return r
    if method == 'reduce':
        axis = kwargs.get('axis', 0)
        if len(inputs) > 1:
            axis = inputs[1]
        return _reduce(name, inputs[0], axis, kwargs.get('keepdims', False), kwargs.get('initial'))
    if method == 'accumulate':
        return _accumulate(name, inputs[0], kwargs.get('axis', inputs[1] if len(inputs) > 1 else 0))
    if method == 'outer':
        a, b = SA(inputs[0]), SA(inputs[1])
        return elementwise(name, (a.reshape(a.shape + (1,) * b.ndim), b))
    raise Unsupported(f'ufunc method {name}.{method}')


def _series_ufunc(name, inputs):
    import pandas as pd
    idx = None
    frame = None
    vals = []
    for x in inputs:
        if isinstance(x, pd.Series):
            idx = x.index if idx is None else idx
            frame = x
            vals.append(SA(x.to_numpy(dtype=object)))
        elif isinstance(x, pd.Index):
            vals.append(SA(x.to_numpy(dtype=object)))
        elif isinstance(x, pd.DataFrame):
            raise Unsupported('ufunc on DataFrame')
        else:
            vals.append(x)
    r = elementwise(name, vals)
    if idx is not None:
        return pd.Series(np.asarray(r), index=idx, name=getattr(frame, 'name', None))
    return r


def elementwise(name, inputs):
    arrs = []
    for x in inputs:
        if isinstance(x, np.ndarray):
            arrs.append(x)
        elif isinstance(x, (list, tuple)):
            arrs.append(SA(x))
        else:
            a = np.empty((), dtype=object)
            a[()] = x
            arrs.append(a)
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    bs = [np.broadcast_to(np.asarray(a), shape) for a in arrs]
    if shape == ():
        return scal(name, tuple(b[()] if b.dtype != OBJ else b.item() for b in bs))
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        out[i] = scal(name, tuple(np.ndarray.__getitem__(b, i) for b in bs))
    return out.view(SA)


def _reduce(name, a, axis, keepdims=False, initial=None):
    a = SA(a) if not isinstance(a, SA) else a
    ident = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False, 'bitwise_and': True, 'bitwise_or': False}
    def fold(seq):
        seq = list(seq)
        if not seq:
            if initial is not None and not isinstance(initial, type(np._NoValue)):
                return initial
            if name in ident:
                return ident[name]
            raise ValueError('zero-size array to reduction operation')
        r = seq[0]
        if name == 'logical_and' or name == 'logical_or':
            r = scal(name, (r, ident[name]))
        for e in seq[1:]:
            r = scal(name, (r, e))
        return r
    if axis is None:
        r = fold(a.flat)
        if keepdims:
            return SA([r]).reshape((1,) * a.ndim)
        return r
    if isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = SA(_reduce(name, a, ax, keepdims))
        return a
    axis = axis % a.ndim if a.ndim else 0
    m = np.moveaxis(np.asarray(a), axis, -1)
    out = np.empty(m.shape[:-1], dtype=object)
    for i in np.ndindex(m.shape[:-1]):
        out[i] = fold(m[i])
    if keepdims:
        out = np.expand_dims(out, axis)
    if out.shape == ():
        return out.item()
    return out.view(SA)


def _mean(a, axis=None, keepdims=False):
    a = SA(a)
    n = a.size if axis is None else a.shape[axis]
    s = _reduce('add', a, axis, keepdims)
    if n == 0:
        return math.nan
    return elementwise('divide', (s, n))


def _accumulate(name, a, axis):
    a = SA(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    m = np.moveaxis(np.asarray(a), axis, 0)
    out = np.empty(m.shape, dtype=object)
    if m.shape[0]:
        out[0] = m[0]
    for i in range(1, m.shape[0]):
        out[i] = elementwise(name, (out[i - 1] if m.ndim > 1 else out[i - 1], m[i]))
    return np.moveaxis(out, 0, axis).view(SA)


def _argext(a, mx):
    best = 0
    f = list(a.flat)
    for i in range(1, len(f)):
        if bool(f[i] > f[best]) if mx else bool(f[i] < f[best]):
            best = i
    return best


def matmul(a, b):
    a = np.asarray(a) if not isinstance(a, np.ndarray) else np.ndarray.view(a, np.ndarray)
    b = np.asarray(b) if not isinstance(b, np.ndarray) else np.ndarray.view(b, np.ndarray)
    sa, sb = a.ndim == 1, b.ndim == 1
    if sa:
        a = a[None, :]
    if sb:
        b = b[:, None]
    if a.ndim > 2 or b.ndim > 2:
        lead = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
        A = np.broadcast_to(a, lead + a.shape[-2:])
        B = np.broadcast_to(b, lead + b.shape[-2:])
        out = np.empty(lead + (a.shape[-2], b.shape[-1]), dtype=object)
        for i in np.ndindex(lead):
            out[i] = matmul(A[i], B[i])
        return out.view(SA)
    if a.shape[1] != b.shape[0]:
        raise ValueError('matmul: dimension mismatch')
    out = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            s = 0
            for k in range(a.shape[1]):
                s = scal('add', (s, scal('multiply', (a[i, k], b[k, j]))))
            out[i, j] = s
    if sa and sb:
        return out[0, 0]
    if sa:
        return out[0].view(SA)
    if sb:
        return out[:, 0].view(SA)
    return out.view(SA)


# ---- numpy functions ----------------------------------------------------------
def _where(c, *xy):
    if not xy:
        m = _as_bool(SA(c)) if not isinstance(c, Node) else np.array(bool(c))
        return np.where(m)
    x, y = xy
    c, x, y = [_unwrap_series(v) for v in (c, x, y)]
    ca, xa, ya = [v if isinstance(v, np.ndarray) else SA(v) for v in (c, x, y)]
    shape = np.broadcast_shapes(ca.shape, xa.shape, ya.shape)
    cb, xb, yb = [np.broadcast_to(np.asarray(v), shape) for v in (ca, xa, ya)]
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        cc, xx, yy = cb[i], xb[i], yb[i]
        if isinstance(cc, np.ndarray):
            cc, xx, yy = cc.item(), xx.item(), yy.item()
        out[i] = pick(cc, xx, yy)
    return out.view(SA) if shape else (out.item() if not isinstance(c, np.ndarray) else out.view(SA))


def pick(c, x, y):
    if not isinstance(c, Node):
        return x if c else y
    if c.op == 'const':
        return x if c.val else y
    ints = all((isinstance(v, Node) and v.sort in 'IB') or isinstance(v, (int, np.integer)) for v in (x, y))
    if ints:
        return N.ite(c, x, y)
    if x is y:
        return x
    if all((isinstance(v, Node) and v.sort != 'B') or (N.is_num(v) and not isinstance(v, (bool, np.bool_)) and not N.is_nonfinite(v)) for v in (x, y)):
        return lazy_ite(c, x, y)
    return x if bool(c) else y


def _interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('np.interp with period')
    xp = list(SA(_unwrap_series(np.asarray(xp, dtype=object) if not isinstance(xp, Node) else xp)).flat)
    fp = list(SA(_unwrap_series(np.asarray(fp, dtype=object))).flat)
    xs = _unwrap_series(x)
    fixed = all(isinstance(v, (int, float, np.number)) for v in xp) and all(a < b for a, b in zip(xp, xp[1:]))

    def one(v):
        if fixed and isinstance(v, (int, float, np.number)) and xp[0] <= v <= xp[-1]:
            k = bisect.bisect_right(xp, v) - 1
            if v == xp[k]:
                return fp[k]
            slope = scal('divide', (scal('subtract', (fp[k + 1], fp[k])), scal('subtract', (xp[k + 1], xp[k]))))
            return scal('add', (scal('multiply', (slope, scal('subtract', (v, xp[k])))), fp[k]))
        if bool(scal('less', (v, xp[0]))):
            return fp[0] if left is None else left
        if bool(scal('greater', (v, xp[-1]))):
            return fp[-1] if right is None else right
        for k in range(len(xp)):
            if bool(scal('equal', (v, xp[k]))):
                return fp[k]
            if k + 1 < len(xp) and bool(scal('less', (v, xp[k + 1]))):
                slope = scal('divide', (scal('subtract', (fp[k + 1], fp[k])), scal('subtract', (xp[k + 1], xp[k]))))
                return scal('add', (scal('multiply', (slope, scal('subtract', (v, xp[k])))), fp[k]))
        return fp[-1]
    if isinstance(xs, (np.ndarray, list, tuple)):
        xa = SA(xs)
        out = np.empty(xa.shape, dtype=object)
        for i in np.ndindex(xa.shape):
            out[i] = one(np.ndarray.__getitem__(xa, i))
        return out.view(SA)
    return one(xs)


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = elementwise('absolute', (elementwise('subtract', (a, b)),))
    t = elementwise('add', (atol, elementwise('multiply', (rtol, elementwise('absolute', (b,))))))
    return elementwise('less_equal', (d, t))


def _isin(el, test, **k):
    test = list(test) if not isinstance(test, np.ndarray) else list(test.flat)
    def one(e):
        r = False
        for t in test:
            r = scal('logical_or', (r, scal('equal', (e, t))))
        return r
    if isinstance(el, np.ndarray):
        out = np.empty(el.shape, dtype=object)
        for i in np.ndindex(el.shape):
            out[i] = one(el[i])
        return out.view(SA)
    return one(el)


def _cholesky(a, **k):
    a = np.asarray(a, dtype=object)
    n = a.shape[0]
    L = np.empty((n, n), dtype=object)
    L[...] = 0.0
    for j in range(n):
        s = a[j, j]
        for k_ in range(j):
            s = s - L[j, k_] * L[j, k_]
        if not bool(scal('greater', (s, 0))):
            raise np.linalg.LinAlgError('Matrix is not positive definite')
        L[j, j] = scal('sqrt', (s,))
        for i in range(j + 1, n):
            s = a[i, j]
            for k_ in range(j):
                s = s - L[i, k_] * L[j, k_]
            L[i, j] = scal('divide', (s, L[j, j]))
    return L.view(SA)


def _full_like(a, fill_value, dtype=None, **k):
    if isinstance(a, np.ndarray) and a.ndim == 0 or isinstance(a, Node):
        return SA([fill_value]).reshape(())
    out = np.empty(np.shape(a), dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = fill_value
    return out.view(SA)


def _atleast(n):
    def f(*xs):
        r = []
        for x in xs:
            x = _unwrap_series(x)
            a = x if isinstance(x, np.ndarray) else SA(x)
            a = SA(a) if a.dtype == OBJ else a
            while a.ndim < n:
                a = a.reshape((1,) + a.shape) if not (n == 3 and a.ndim == 2) else a.reshape(a.shape + (1,))
            r.append(a)
        return r[0] if len(r) == 1 else tuple(r)
    return f


def _average(a, axis=None, weights=None, **k):
    if weights is None:
        return _mean(a, axis)
    return _reduce('add', elementwise('multiply', (a, weights)), axis) / _reduce('add', SA(weights), axis)


def _trapz(y, x=None, dx=1.0, axis=-1):
    y = SA(y)
    if y.ndim != 1:
        raise Unsupported('trapz ndim')
    d = np.diff(SA(x)) if x is not None else dx
    return _reduce('add', d * (y[1:] + y[:-1]) / 2.0, None)


def _diff(a, n=1, axis=-1, **k):
    a = SA(a)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = [slice(None)] * a.ndim
        sl1[axis], sl2[axis] = slice(1, None), slice(None, -1)
        a = elementwise('subtract', (a[tuple(sl1)], a[tuple(sl2)]))
    return a


def _allclose(a, b, **k):
    return _reduce('logical_and', SA(_isclose(a, b, **k)), None)


def _clip(a, lo=None, hi=None, **k):
    r = a
    if lo is not None:
        r = elementwise('maximum', (r, lo))
    if hi is not None:
        r = elementwise('minimum', (r, hi))
    return r


def _polyval(p, x):
    y = 0
    for c in p:
        y = y * x + c
    return y


def _searchsorted(a, v, side='left', sorter=None):
    xs = list(SA(_unwrap_series(a)).flat)
    def one(e):
        for i, t in enumerate(xs):
            if bool(scal('less_equal' if side == 'left' else 'less', (e, t))):
                return i
        return len(xs)
    v = _unwrap_series(v)
    if isinstance(v, (np.ndarray, list)):
        return np.array([one(e) for e in SA(v).flat], dtype=int).reshape(np.shape(v))
    return one(v)


def _busday(*a, **k):
    raise Unsupported('busday function on symbolic dates without a calendar model')


def _copy(a, **k):
    return a.copy() if isinstance(a, np.ndarray) else SA(a)


def _roots(p):
    raise Unsupported('np.roots on symbolic coefficients')


def _select(condlist, choicelist, default=0):
    r = default
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = _where(c, x, r)
    return r


def _dot(a, b, out=None):
    a = a if isinstance(a, np.ndarray) else SA(a)
    b = b if isinstance(b, np.ndarray) else SA(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise('multiply', (a, b))
    return matmul(a, b)


def _einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Unsupported('einsum ellipsis')
    ins, _, outl = spec.partition('->')
    ins = ins.split(',')
    if not _:
        import collections
        c = collections.Counter(''.join(ins))
        outl = ''.join(sorted(l for l in c if c[l] == 1))
    ops = [np.asarray(o) for o in ops]
    dims = {}
    for l, o in zip(ins, ops):
        for ch, n in zip(l, o.shape):
            dims[ch] = n
    summed = [ch for ch in dims if ch not in outl]
    out = np.empty(tuple(dims[c] for c in outl), dtype=object)
    for oi in np.ndindex(out.shape):
        env = dict(zip(outl, oi))
        tot = 0
        for si in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, si))
            p = 1
            for l, o in zip(ins, ops):
                p = scal('multiply', (p, o[tuple(env[c] for c in l)]))
            tot = scal('add', (tot, p))
        out[oi] = tot
    return out.view(SA) if out.shape else out.item()


def _rq(name):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, **k):
        a = _unwrap_series(a)
        if isinstance(a, Node):
            return a
        return _reduce(name, SA(a), axis, bool(keepdims) if keepdims is not np._NoValue else False)
    return f


FUNCS = {
    'where': _where, 'interp': _interp, 'isclose': _isclose, 'allclose': _allclose, 'isin': _isin, 'in1d': _isin,
    'cholesky': _cholesky, 'full_like': _full_like, 'zeros_like': lambda a, *r, **k: _full_like(a, 0.0),
    'ones_like': lambda a, *r, **k: _full_like(a, 1.0), 'empty_like': lambda a, *r, **k: _full_like(a, math.nan),
    'atleast_1d': _atleast(1), 'atleast_2d': _atleast(2), 'atleast_3d': _atleast(3),
    'average': _average, 'mean': lambda a, axis=None, **k: _mean(_unwrap_series(a), axis, k.get('keepdims', False) is True),
    'nanmean': lambda a, axis=None, **k: _mean(_unwrap_series(a), axis),
    'sum': _rq('add'), 'nansum': _rq('add'), 'prod': _rq('multiply'), 'all': _rq('logical_and'), 'any': _rq('logical_or'),
    'max': _rq('maximum'), 'amax': _rq('maximum'), 'min': _rq('minimum'), 'amin': _rq('minimum'),
    'nanmax': _rq('maximum'), 'nanmin': _rq('minimum'),
    'cumsum': lambda a, axis=None, **k: _accumulate('add', a, axis), 'cumprod': lambda a, axis=None, **k: _accumulate('multiply', a, axis),
    'trapz': _trapz, 'trapezoid': _trapz, 'diff': _diff, 'clip': _clip, 'polyval': _polyval, 'searchsorted': _searchsorted,
    'matmul': matmul, 'dot': _dot, 'einsum': _einsum, 'select': _select, 'copy': _copy, 'roots': _roots,
    'real': lambda a: a.real, 'imag': lambda a: a.imag, 'iscomplexobj': lambda a: False, 'isrealobj': lambda a: True,
    'array_equal': lambda a, b, **k: _reduce('logical_and', SA(elementwise('equal', (a, b))), None) if np.shape(a) == np.shape(b) else False,
    'argmax': lambda a, **k: _argext(SA(a), True), 'argmin': lambda a, **k: _argext(SA(a), False),
    'std': lambda a, axis=None, ddof=0, **k: SA(a).std(axis=axis, ddof=ddof), 'var': lambda a, axis=None, ddof=0, **k: SA(a).var(axis=axis, ddof=ddof),
    'shape': lambda a: a.shape, 'ndim': lambda a: a.ndim, 'size': lambda a, axis=None: a.size if axis is None else a.shape[axis],
    'nan_to_num': lambda a, nan=0.0, **k: _where(elementwise('isnan', (a,)), nan, a),
    'busday_offset': _busday, 'is_busday': _busday, 'busday_count': _busday,
    'round': _roots, 'around': _roots,
    'outer': lambda a, b, out=None: elementwise('multiply', (SA(a).reshape(-1, 1), SA(b).reshape(1, -1))),
    'isreal': lambda a: _full_like(a, True), 'count_nonzero': lambda a, axis=None, **k: _reduce('add', elementwise('not_equal', (a, 0)), axis),
}


def function_dispatch(func, args, kwargs):
    name = func.__name__
    if name in FUNCS:
        return FUNCS[name](*args, **kwargs)
    # structural functions: run numpy's own implementation on object arrays
    def prep(x):
        if isinstance(x, Node):
            return SA(x)
        if isinstance(x, (list, tuple)):
            t = [prep(e) for e in x]
            return type(x)(t) if type(x) in (list, tuple) else t
        return x
    a = tuple(prep(x) for x in args)
    k = {kk: prep(v) for kk, v in kwargs.items()}
    impl = getattr(func, '_implementation', None)
    if impl is None:
        r = np.ndarray.__array_function__(SA([0]), func, (SA,), a, k)
    else:
        r = impl(*a, **k)
    return rewrap(r)


def rewrap(r):
    if isinstance(r, np.ndarray) and r.dtype == OBJ and not isinstance(r, SA):
        return r.view(SA)
    if isinstance(r, tuple):
        return tuple(rewrap(x) for x in r)
    if isinstance(r, list):
        return [rewrap(x) for x in r]
    return r
