"""Hash-consed expression DAG for symbolic execution of Python numeric code.

A Node stands in for a Python/numpy number (sort 'R' or 'I') or truth value
(sort 'B').  Floats are read as exact decimals; the semantics is real
arithmetic.  `bool(node)` asks the active path explorer (explore.py) which way
to go, so ordinary `if`, `while`, `max`, masks ... fork paths.
"""
import math
from fractions import Fraction
import numpy as _np


class Unsupported(Exception):
    """The encoding cannot represent what the code did (=> inconclusive)."""


_table = {}
_count = [0]


class Ctl:
    """Hook to the active path explorer."""
    explorer = None


class Node:
    __slots__ = ('op', 'args', 'sort', 'nid', 'val', '__weakref__')
    __array_priority__ = 1e6
    dtype = _np.dtype(object)
    ndim = 0
    shape = ()
    size = 1

    # ---- construction -------------------------------------------------
    def __hash__(self):
        return self.nid

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # ---- arithmetic ---------------------------------------------------
    def __add__(self, o): return _lift2(add, self, o)
    def __radd__(self, o): return _lift2(add, o, self)
    def __sub__(self, o): return _lift2(sub, self, o)
    def __rsub__(self, o): return _lift2(sub, o, self)
    def __mul__(self, o): return _lift2(mul, self, o)
    def __rmul__(self, o): return _lift2(mul, o, self)
    def __truediv__(self, o): return _lift2(div, self, o)
    def __rtruediv__(self, o): return _lift2(div, o, self)
    def __floordiv__(self, o): return _lift2(floordiv, self, o)
    def __rfloordiv__(self, o): return _lift2(floordiv, o, self)
    def __mod__(self, o): return _lift2(mod, self, o)
    def __rmod__(self, o): return _lift2(mod, o, self)
    def __divmod__(self, o): return (self // o, self % o)
    def __pow__(self, o): return _lift2(power, self, o)
    def __rpow__(self, o): return _lift2(power, o, self)
    def __neg__(self): return mul(-1, self)
    def __pos__(self): return self

    def __abs__(self):
        from .arr import lazy_ite
        return lazy_ite(ge(self, 0), self, -self)

    # ---- comparison ---------------------------------------------------
    def __lt__(self, o): return _lift2(lt, self, o)
    def __le__(self, o): return _lift2(le, self, o)
    def __gt__(self, o): return _lift2(gt, self, o)
    def __ge__(self, o): return _lift2(ge, self, o)
    def __eq__(self, o): return _lift2(eq, self, o)
    def __ne__(self, o): return _lift2(ne, self, o)

    # ---- logic --------------------------------------------------------
    def __and__(self, o): return _lift2(land, self, o)
    def __rand__(self, o): return _lift2(land, o, self)
    def __or__(self, o): return _lift2(lor, self, o)
    def __ror__(self, o): return _lift2(lor, o, self)
    def __xor__(self, o): return _lift2(lambda a, b: land(lor(a, b), lnot(land(a, b))), self, o)
    __rxor__ = __xor__
    def __invert__(self): return lnot(self)

    def __bool__(self):
        if self.sort != 'B':
            return bool(ne(self, 0))
        if self.op == 'const':
            return bool(self.val)
        if Ctl.explorer is None:
            raise Unsupported('truth value of a symbolic expression outside an exploration')
        return Ctl.explorer.decide(self)

    def __float__(self):
        if self.op == 'const':
            return float(self.val)
        raise Unsupported('float() of a symbolic value (C boundary)')

    def __int__(self):
        if self.op == 'const':
            return int(self.val)
        raise Unsupported('int() of a symbolic value (C boundary)')

    def __index__(self):
        if self.op == 'const' and self.val.denominator == 1:
            return int(self.val)
        if self.sort == 'I' and Ctl.explorer is not None:
            return Ctl.explorer.concretise_int(self)
        raise Unsupported('index() of a symbolic value')

    def __round__(self, n=None):
        raise Unsupported('round() of a symbolic value')

    def __floor__(self): return floor_(self)
    def __ceil__(self): return mul(-1, floor_(mul(-1, self)))
    def __trunc__(self): return floor_(self) if bool(self >= 0) else mul(-1, floor_(mul(-1, self)))

    # numpy-scalar-like protocol ---------------------------------------
    def item(self): return self
    def tolist(self): return self
    def copy(self): return self
    def astype(self, *a, **k): return self
    def flatten(self):
        from .arr import SA
        return SA([self])
    def ravel(self): return self.flatten()
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def all(self, *a, **k): return self
    def any(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def squeeze(self): return self
    def reshape(self, *shape):
        return self.flatten().reshape(*shape)
    @property
    def T(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return const(0)
    def conjugate(self): return self
    def is_integer(self):
        return eq(self, floor_(self))

    # methods numpy calls for object-dtype ufuncs ----------------------
    def exp(self): return exp(self)
    def log(self): return log(self)
    def sqrt(self): return sqrt(self)
    def expm1(self): return sub(exp(self), 1)
    def log1p(self): return log(add(1, self))
    def log2(self): return div(log(self), log(const(2)))
    def log10(self): return div(log(self), log(const(10)))
    def square(self): return mul(self, self)
    def rint(self): raise Unsupported('rint')
    def floor(self): return floor_(self)
    def ceil(self): return self.__ceil__()
    def isnan(self): return False
    def isinf(self): return False
    def isfinite(self): return True

    def __getitem__(self, key):
        from .arr import SA
        if key is None:
            return SA([self])
        if key == () or key is Ellipsis:
            return self
        # x[mask] on a numpy scalar with a 0-d boolean mask
        if isinstance(key, (bool, _np.bool_)) or (isinstance(key, Node) and key.sort == 'B'):
            return SA([self]) if bool(key) else SA([])
        raise IndexError('invalid index to scalar variable.')

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from .arr import ufunc_dispatch
        return ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from .arr import function_dispatch
        return function_dispatch(func, args, kwargs)

    def __array__(self, dtype=None, copy=None):
        a = _np.empty((), dtype=object)
        a[()] = self
        if dtype is not None and _np.dtype(dtype) != object:
            raise Unsupported(f'conversion of a symbolic value to {dtype}')
        return a

    def __repr__(self):
        return show(self)

    def __format__(self, spec):
        return '<sym>'


def show(n, depth=4):
    if not isinstance(n, Node):
        return repr(n)
    if n.op == 'const':
        return str(n.val)
    if n.op == 'var':
        return n.val
    if depth == 0:
        return '..'
    return f"{n.op if n.op != 'fn' else n.val}({', '.join(show(a, depth-1) for a in n.args)})"


def _mk(op, args, sort, val=None):
    key = (op, tuple(a.nid for a in args), sort, val)
    n = _table.get(key)
    if n is None:
        n = Node.__new__(Node)
        n.op, n.args, n.sort, n.val = op, tuple(args), sort, val
        _count[0] += 1
        n.nid = _count[0]
        _table[key] = n
    return n


def free(n):
    """the variables of a term"""
    seen, out, stack = set(), set(), [n]
    while stack:
        t = stack.pop()
        if not isinstance(t, Node) or t.nid in seen:
            continue
        seen.add(t.nid)
        if t.op == 'var':
            out.add(t)
        stack.extend(t.args)
    return out


def reset():
    _table.clear()


def is_nonfinite(x):
    return isinstance(x, (float, _np.floating)) and not math.isfinite(x)


def frac(x):
    """Exact rational for a Python/numpy number; floats read by shortest decimal."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        for cname, cval in _KNOWN.items():
            if x == cval:
                raise KeyError(cname)
        return Fraction(repr(x))
    raise TypeError(type(x))


_KNOWN = {}


def const(x, sort=None):
    if isinstance(x, Node):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return _mk('const', (), 'B', bool(x)) if sort in (None, 'B') else _mk('const', (), sort, Fraction(int(x)))
    if sort is None:
        sort = 'I' if isinstance(x, (int, _np.integer)) else 'R'
    if isinstance(x, (float, _np.floating)):
        fx = float(x)
        r = _recognise(fx)
        if r is not None:
            return r
    v = frac(x)
    return _mk('const', (), sort, v)


def _recognise(fx):
    if fx == math.pi:
        return PI
    if fx == math.sqrt(2 * math.pi):
        return sqrt(mul(2, PI))
    if fx == 1 / math.sqrt(2 * math.pi):
        return div(1, sqrt(mul(2, PI)))
    if fx == math.sqrt(2.0):
        return sqrt(const(2))
    if fx == 2 * math.pi:
        return mul(2, PI)
    if fx == math.e:
        return exp(const(1))
    return None


def var(name, sort='R'):
    return _mk('var', (), sort, name)


def is_num(x):
    return isinstance(x, (int, float, Fraction, _np.number, bool, _np.bool_))


def _lift2(f, a, b):
    for x in (a, b):
        if not isinstance(x, Node) and not is_num(x):
            if isinstance(x, _np.ndarray) and x.ndim == 0:
                return f(a.item() if isinstance(a, _np.ndarray) else a, b.item() if isinstance(b, _np.ndarray) else b)
            return NotImplemented
    return f(a, b)


def _sort2(a, b):
    return 'I' if a.sort in 'IB' and b.sort in 'IB' else 'R'


def _num(x):
    """Node with numeric sort."""
    x = const(x)
    if x.sort == 'B':
        if x.op == 'const':
            return const(int(x.val))
        return ite(x, const(1), const(0))
    return x


def add(a, b):
    if is_nonfinite(a) or is_nonfinite(b):
        return _nf('add', a, b)
    a, b = _num(a), _num(b)
    s = _sort2(a, b)
    if a.op == 'const' and b.op == 'const':
        return _mk('const', (), s, a.val + b.val)
    if a.op == 'const' and a.val == 0:
        return b if b.sort == s else toreal(b)
    if b.op == 'const' and b.val == 0:
        return a if a.sort == s else toreal(a)
    if a.nid > b.nid:
        a, b = b, a
    return _mk('add', (a, b), s)


def mul(a, b):
    if is_nonfinite(a) or is_nonfinite(b):
        return _nf('mul', a, b)
    a, b = _num(a), _num(b)
    s = _sort2(a, b)
    if a.op == 'const' and b.op == 'const':
        return _mk('const', (), s, a.val * b.val)
    for x, y in ((a, b), (b, a)):
        if x.op == 'const':
            if x.val == 0:
                return _mk('const', (), s, Fraction(0))
            if x.val == 1:
                return y if y.sort == s else toreal(y)
            if y.op == 'mul' and y.args[0].op == 'const':
                return mul(_mk('const', (), _sort2(x, y.args[0]), x.val * y.args[0].val), y.args[1])
            return _mk('mul', (x, y), s)
    if a.nid > b.nid:
        a, b = b, a
    return _mk('mul', (a, b), s)


def sub(a, b):
    if is_nonfinite(a) or is_nonfinite(b):
        return _nf('sub', a, b)
    a, b = _num(a), _num(b)
    if a is b:
        return _mk('const', (), a.sort, Fraction(0))
    return add(a, mul(-1, b))


def toreal(a):
    a = _num(a)
    if a.sort == 'R':
        return a
    if a.op == 'const':
        return _mk('const', (), 'R', a.val)
    return _mk('toreal', (a,), 'R')


def div(a, b):
    if is_nonfinite(a) or is_nonfinite(b):
        return _nf('div', a, b)
    a, b = toreal(a), toreal(b)
    if b.op == 'const':
        if b.val == 0:
            return _divzero(a)
        return mul(_mk('const', (), 'R', 1 / b.val), a)
    if a.op == 'const' and a.val == 0 and Ctl.explorer is None:
        return a
    ex = Ctl.explorer
    if ex is not None and not ex.lazy_div and not ex.known_nonzero(b):
        if bool(eq(b, 0)):
            return _divzero(a)
    return _mk('div', (a, b), 'R')


def _divzero(a):
    if bool(a > 0):
        return math.inf
    if bool(a < 0):
        return -math.inf
    return math.nan


def _nf(op, a, b):
    """Arithmetic where one side is nan/inf and the other may be symbolic."""
    fa, fb = a, b
    def sgn(x):
        if isinstance(x, Node):
            if bool(x > 0):
                return 1.0
            if bool(x < 0):
                return -1.0
            return 0.0
        return float(x)
    if (isinstance(a, float) and math.isnan(a)) or (isinstance(b, float) and math.isnan(b)):
        return math.nan
    with _np.errstate(all='ignore'):
        if op in ('add', 'sub'):
            fa = _np.float64(0.0 if isinstance(a, Node) else a)
            fb = _np.float64(0.0 if isinstance(b, Node) else b)
            return float(fa + fb if op == 'add' else fa - fb)
        fa, fb = _np.float64(sgn(a)), _np.float64(sgn(b))
        return float(fa * fb if op == 'mul' else fa / fb)


def floor_(a):
    a = _num(a)
    if a.op == 'const':
        return const(math.floor(a.val))
    if a.sort == 'I':
        return a
    return _mk('floor', (a,), 'I')


def floordiv(a, b):
    a, b = _num(a), _num(b)
    if a.op == 'const' and b.op == 'const':
        r = a.val // b.val
        return _mk('const', (), _sort2(a, b), Fraction(r))
    if a.sort == 'I' and b.sort == 'I':
        if b.op == 'const' and b.val > 0:
            return _mk('idiv', (a, b), 'I')
        raise Unsupported('integer division by a symbolic or negative divisor')
    return floor_(div(a, b))


def mod(a, b):
    a, b = _num(a), _num(b)
    if a.op == 'const' and b.op == 'const':
        return _mk('const', (), _sort2(a, b), a.val % b.val)
    if a.sort == 'I' and b.sort == 'I' and b.op == 'const' and b.val > 0:
        return _mk('imod', (a, b), 'I')
    return sub(a, mul(b, floordiv(a, b)))


def power(a, b):
    if is_nonfinite(a) or is_nonfinite(b):
        if not isinstance(a, Node) and not isinstance(b, Node):
            return float(_np.float64(a) ** _np.float64(b))
        raise Unsupported('power with non-finite operand')
    a, b = _num(a), _num(b)
    if b.op == 'const':
        e = b.val
        if e == 0:
            return const(1) if a.sort == 'I' else _mk('const', (), 'R', Fraction(1))
        if e == 1:
            return a
        if a.op == 'const' and e.denominator == 1 and abs(e) < 200:
            if e < 0 and a.val == 0:
                return math.inf
            return _mk('const', (), a.sort if e > 0 else 'R', a.val ** int(e))
        if e.denominator == 1:
            if e < 0:
                return div(1, power(a, mul(-1, b)))
            if a.sort == 'I':
                r = a
                for _ in range(int(e) - 1):
                    r = mul(r, a)
                return r
            return _mk('pow', (toreal(a),), 'R', e)
        # fractional exponent: needs a >= 0 (numpy gives nan otherwise)
        a = toreal(a)
        _need_nonneg(a)
        if e < 0:
            return div(1, power(a, -e))
        if a.op == 'const' and a.val == 0:
            return a
        return _mk('pow', (a,), 'R', e)
    # symbolic exponent
    a, b = toreal(a), toreal(b)
    if a.op == 'const' and a.val == 1:
        return a
    return exp(mul(b, log(a)))


def _need_nonneg(a):
    pass


def exp(a):
    if is_nonfinite(a):
        return float(_np.exp(a))
    a = toreal(a)
    if a.op == 'const' and a.val == 0:
        return _mk('const', (), 'R', Fraction(1))
    if a.op == 'fn' and a.val == 'log':
        return a.args[0]
    return _mk('fn', (a,), 'R', 'exp')


def log(a):
    if is_nonfinite(a):
        return float(_np.log(a))
    a = toreal(a)
    if a.op == 'const' and a.val == 1:
        return _mk('const', (), 'R', Fraction(0))
    if a.op == 'const' and a.val == 0:
        return -math.inf
    if a.op == 'const' and a.val < 0:
        return math.nan
    if a.op == 'fn' and a.val == 'exp':
        return a.args[0]
    ex = Ctl.explorer
    if ex is not None and not ex.lazy_div and not ex.known_positive(a):
        if not bool(a > 0):
            return -math.inf if bool(eq(a, 0)) else math.nan
    if ex is not None:
        ex.log_sign(a)
    return _mk('fn', (a,), 'R', 'log')


def sqrt(a):
    if is_nonfinite(a):
        return float(_np.sqrt(a))
    a = toreal(a)
    if a.op == 'const':
        if a.val < 0:
            return math.nan
        n, d = math.isqrt(a.val.numerator), math.isqrt(a.val.denominator)
        if n * n == a.val.numerator and d * d == a.val.denominator:
            return _mk('const', (), 'R', Fraction(n, d))
    ex = Ctl.explorer
    if a.op != 'const' and ex is not None and not ex.lazy_div and not ex.known_nonneg(a):
        if bool(a < 0):
            return math.nan
    return _mk('pow', (a,), 'R', Fraction(1, 2))


def fn(name, *args):
    """Named transcendental / uninterpreted function."""
    return _mk('fn', tuple(toreal(a) for a in args), 'R', name)


def ncdf(a):
    if is_nonfinite(a):
        from scipy.special import ndtr
        return float(ndtr(a))
    a = toreal(a)
    if a.op == 'const' and a.val == 0:
        return _mk('const', (), 'R', Fraction(1, 2))
    return fn('ncdf', a)


def npdf(a):
    if is_nonfinite(a):
        return 0.0 if math.isinf(a) else math.nan
    a = toreal(a)
    return div(exp(mul(Fraction(-1, 2), mul(a, a))), sqrt(mul(2, PI)))


def nppf(a):
    if is_nonfinite(a):
        return math.nan
    a = toreal(a)
    if a.op == 'fn' and a.val == 'ncdf':
        return a.args[0]
    if a.op == 'const' and a.val == Fraction(1, 2):
        return _mk('const', (), 'R', Fraction(0))
    ex = Ctl.explorer
    if ex is not None and not ex.lazy_div:
        if not bool(land(a > 0, a < 1)):
            if bool(eq(a, 0)):
                return -math.inf
            if bool(eq(a, 1)):
                return math.inf
            return math.nan
    return fn('nppf', a)


# ---- booleans -----------------------------------------------------------
TRUE = None
FALSE = None


def _cmp_nf(a, b):
    fa = 0.0 if isinstance(a, Node) else float(a)
    fb = 0.0 if isinstance(b, Node) else float(b)
    return fa, fb


def lt(a, b):
    if is_nonfinite(a) or is_nonfinite(b):
        x, y = _cmp_nf(a, b)
        return const(x < y)
    a, b = _num(a), _num(b)
    if a is b:
        return FALSE
    if a.op == 'const' and b.op == 'const':
        return const(a.val < b.val)
    return _mk('lt', (a, b), 'B')


def le(a, b):
    if is_nonfinite(a) or is_nonfinite(b):
        x, y = _cmp_nf(a, b)
        return const(x <= y)
    return lnot(lt(b, a))


def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)


def eq(a, b):
    if is_nonfinite(a) or is_nonfinite(b):
        if isinstance(a, Node) or isinstance(b, Node):
            return FALSE
        return const(a == b)
    a, b = const(a), const(b)
    if a is b:
        return TRUE
    if a.sort == 'B' and b.sort == 'B':
        return lor(land(a, b), land(lnot(a), lnot(b)))
    a, b = _num(a), _num(b)
    if a.op == 'const' and b.op == 'const':
        return const(a.val == b.val)
    if a is b:
        return TRUE
    if a.op == 'fn' and b.op == 'fn' and a.val == b.val == 'exp':
        return eq(a.args[0], b.args[0])
    if a.nid > b.nid:
        a, b = b, a
    return _mk('eq', (a, b), 'B')


def ne(a, b):
    return lnot(eq(a, b))


def _b(x):
    x = const(x)
    if x.sort != 'B':
        return ne(x, 0)
    return x


def land(*xs):
    out = []
    for x in xs:
        x = _b(x)
        if x.op == 'const':
            if not x.val:
                return FALSE
            continue
        if x.op == 'and':
            out.extend(x.args)
        else:
            out.append(x)
    out = sorted(set(out), key=lambda n: n.nid)
    if not out:
        return TRUE
    ids = {n.nid for n in out}
    for n in out:
        if n.op == 'not' and n.args[0].nid in ids:
            return FALSE
    if len(out) == 1:
        return out[0]
    return _mk('and', out, 'B')


def lor(*xs):
    return lnot(land(*[lnot(x) for x in xs]))


def lnot(x):
    x = _b(x)
    if x.op == 'const':
        return FALSE if x.val else TRUE
    if x.op == 'not':
        return x.args[0]
    return _mk('not', (x,), 'B')


def implies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    c = _b(c)
    if c.op == 'const':
        return a if c.val else b
    if not isinstance(a, Node) and not isinstance(b, Node) and type(a) == type(b) and a == b:
        return a
    if is_nonfinite(a) or is_nonfinite(b):
        return a if bool(c) else b
    a, b = const(a), const(b)
    if a is b:
        return a
    if a.sort == 'B' and b.sort == 'B':
        return lor(land(c, a), land(lnot(c), b))
    a, b = _num(a), _num(b)
    s = _sort2(a, b)
    if s == 'R':
        a, b = toreal(a), toreal(b)
    return _mk('ite', (c, a, b), s)


TRUE = const(True)
FALSE = const(False)
PI = _mk('fn', (), 'R', 'pi')


def reset_all():
    global TRUE, FALSE, PI
    # keep the table (constants are shared singletons); only for tests
    pass


# ---- evaluation ---------------------------------------------------------
def evalf(n, env, memo=None):
    """Floating point value of a node under env {var name: number}."""
    from scipy.special import ndtr, ndtri
    if memo is None:
        memo = {}
    if not isinstance(n, Node):
        return n
    stack = [n]
    while stack:
        t = stack[-1]
        if t.nid in memo:
            stack.pop()
            continue
        pend = [a for a in t.args if a.nid not in memo]
        if t.op == 'ite' and t.args[0].nid in memo:
            want = t.args[1] if memo[t.args[0].nid] else t.args[2]
            pend = [want] if want.nid not in memo else []
        elif t.op == 'ite':
            pend = [t.args[0]]
        if pend:
            stack.extend(pend)
            continue
        v = [memo[a.nid] if a.nid in memo else None for a in t.args]
        op = t.op
        try:
            if op == 'const':
                r = (bool(t.val) if t.sort == 'B' else (int(t.val) if t.sort == 'I' and t.val.denominator == 1 else float(t.val)))
            elif op == 'var':
                r = env[t.val]
            elif op == 'add':
                r = v[0] + v[1]
            elif op == 'mul':
                r = v[0] * v[1]
            elif op == 'div':
                r = v[0] / v[1]
            elif op == 'pow':
                r = v[0] ** (int(t.val) if t.val.denominator == 1 else float(t.val))
                if isinstance(r, complex):
                    r = math.nan
            elif op == 'toreal':
                r = v[0]
            elif op == 'floor':
                r = math.floor(v[0])
            elif op == 'idiv':
                r = v[0] // v[1]
            elif op == 'imod':
                r = v[0] % v[1]
            elif op == 'lt':
                r = v[0] < v[1]
            elif op == 'eq':
                r = v[0] == v[1]
            elif op == 'and':
                r = all(v)
            elif op == 'not':
                r = not v[0]
            elif op == 'ite':
                r = v[1] if v[0] else v[2]
            elif op == 'fn':
                f = t.val
                if f == 'exp':
                    r = math.exp(v[0]) if v[0] < 709 else math.inf
                elif f == 'log':
                    r = math.log(v[0]) if v[0] > 0 else (-math.inf if v[0] == 0 else math.nan)
                elif f == 'ncdf':
                    r = float(ndtr(v[0]))
                elif f == 'nppf':
                    r = float(ndtri(v[0]))
                elif f == 'pi':
                    r = math.pi
                elif f in ('sin', 'cos', 'tan', 'arctan'):
                    r = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'arctan': math.atan}[f](v[0])
                elif f in env:
                    r = env[f](*v)
                else:
                    raise KeyError(f)
            else:
                raise Unsupported(op)
        except ZeroDivisionError:
            r = math.nan
        except OverflowError:
            r = math.inf
        memo[t.nid] = r
        stack.pop()
    return memo[n.nid]


# ---- symbolic differentiation ----------------------------------------------
def diff(n, x, memo=None):
    """d n / d x for a real DAG (x a var node)."""
    if memo is None:
        memo = {}
    if not isinstance(n, Node):
        return const(0)
    if n.nid in memo:
        return memo[n.nid]
    op = n.op
    if n is x:
        r = const(1)
    elif op in ('const', 'var'):
        r = const(0)
    elif op == 'add':
        r = add(diff(n.args[0], x, memo), diff(n.args[1], x, memo))
    elif op == 'mul':
        a, b = n.args
        r = add(mul(diff(a, x, memo), b), mul(a, diff(b, x, memo)))
    elif op == 'div':
        a, b = n.args
        da, db = diff(a, x, memo), diff(b, x, memo)
        r = sub(_rawdiv(da, b), _rawdiv(mul(a, db), mul(b, b)))
    elif op == 'pow':
        a = n.args[0]
        da = diff(a, x, memo)
        e = n.val
        if da.op == 'const' and da.val == 0:
            r = const(0)
        else:
            r = mul(mul(const(e, 'R'), _rawpow(a, e - 1)), da)
    elif op == 'toreal':
        r = toreal(diff(n.args[0], x, memo))
    elif op == 'ite':
        r = ite(n.args[0], diff(n.args[1], x, memo), diff(n.args[2], x, memo))
    elif op == 'fn':
        f = n.val
        if not n.args:
            r = const(0)
        else:
            ds = [diff(a, x, memo) for a in n.args]
            if all(d.op == 'const' and d.val == 0 for d in ds):
                r = const(0)
            elif f == 'exp':
                r = mul(n, ds[0])
            elif f == 'log':
                r = _rawdiv(ds[0], n.args[0])
            elif f == 'ncdf':
                r = mul(npdf(n.args[0]), ds[0])
            elif f == 'nppf':
                r = _rawdiv(ds[0], npdf(n))
            elif f == 'sin':
                r = mul(fn('cos', n.args[0]), ds[0])
            elif f == 'cos':
                r = mul(mul(-1, fn('sin', n.args[0])), ds[0])
            else:
                raise Unsupported(f'derivative of {f}')
    else:
        raise Unsupported(f'derivative of {op}')
    memo[n.nid] = r
    return r


def _rawdiv(a, b):
    a, b = toreal(a), toreal(b)
    if a.op == 'const' and a.val == 0:
        return a
    if b.op == 'const':
        return mul(const(1 / b.val, 'R'), a)
    return _mk('div', (a, b), 'R')


def _rawpow(a, e):
    if e == 0:
        return const(1)
    if e == 1:
        return a
    if e < 0:
        return _rawdiv(const(1), _rawpow(a, -e))
    return _mk('pow', (a,), 'R', e)


def subst(n, m, memo=None):
    """Replace var nodes per {node: node}."""
    if memo is None:
        memo = {}
    if not isinstance(n, Node):
        return n
    if n in m:
        return m[n]
    if n.nid in memo:
        return memo[n.nid]
    if not n.args:
        r = n
    else:
        if n.op == 'ite' and n.args[0] in m:
            r = memo[n.nid] = subst(n.args[1] if m[n.args[0]].val else n.args[2], m, memo)
            return r
        a = [subst(t, m, memo) for t in n.args]
        op = n.op
        if op == 'add': r = add(*a)
        elif op == 'mul': r = mul(*a)
        elif op == 'div': r = _rawdiv(*a)
        elif op == 'pow': r = _rawpow(a[0], n.val)
        elif op == 'toreal': r = toreal(a[0])
        elif op == 'floor': r = floor_(a[0])
        elif op == 'idiv': r = floordiv(*a)
        elif op == 'imod': r = mod(*a)
        elif op == 'lt': r = lt(*a)
        elif op == 'eq': r = eq(*a)
        elif op == 'and': r = land(*a)
        elif op == 'not': r = lnot(a[0])
        elif op == 'ite': r = ite(*a)
        elif op == 'fn':
            r = {'exp': exp, 'log': log, 'ncdf': ncdf}.get(n.val, lambda *z: fn(n.val, *z))(*a)
        else:
            raise Unsupported(op)
    memo[n.nid] = r
    return r
