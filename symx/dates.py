"""Symbolic calendar dates: pandas/datetime stand-ins for the frm modules.

A date is a triple of integer terms (year, month, day) and/or a day number; the
proleptic Gregorian rules connect the two. Business-day rolling follows numpy's
busday_offset on a weekend mask plus an explicit list of holidays."""
import calendar as _cal
import datetime as _dt
import types
import numpy as np
import pandas as pd
from . import node as N
from .node import Node, Ctl, Unsupported, const
from .arr import SA

LO, HI = 1950, 2150


def isnode(*xs):
    return any(isinstance(x, Node) for x in xs)


def leap(y):
    if not isnode(y):
        return _cal.isleap(y)
    return N.lor(N.land(N._b(y % 4 == 0), N.lnot(N._b(y % 100 == 0))), N._b(y % 400 == 0))


def ite(c, a, b):
    if isinstance(c, Node):
        return N.ite(c, const(a) if not isinstance(a, Node) else a, const(b) if not isinstance(b, Node) else b)
    return a if c else b


def dim(y, m):
    if not isnode(y, m):
        return _cal.monthrange(y, m)[1]
    feb = ite(leap(y), 29, 28)
    if not isnode(m):
        return feb if m == 2 else _cal.monthrange(2001, m)[1]
    short = N.lor(*[N._b(m == k) for k in (4, 6, 9, 11)])
    return ite(N._b(m == 2), feb, ite(short, 30, 31))


def ordinal(y, m, d):
    """days since 1970-01-01"""
    if not isnode(y, m, d):
        return (_dt.date(y, m, d) - _dt.date(1970, 1, 1)).days
    if isnode(m):
        early = N._b(m <= 2)
        y1 = ite(early, y - 1, y)
        mp = (m + 9) % 12
        c = (mp * 153 + 2) // 5
    else:
        y1 = y - 1 if m <= 2 else y
        c = (153 * ((m + 9) % 12) + 2) // 5
    return y1 * 365 + y1 // 4 - y1 // 100 + y1 // 400 + c + d - 1 - 719468


def _names(k):
    return ('year', 'month', 'day')[k]


def monotone(t):
    """the day number orders dates as (year, month, day) does: told to the solver for every two dates whose numbers are used"""
    ex = Ctl.explorer
    if ex is None:
        return
    if t._ymd is None or ABSTRACT:
        return
    seen = ex.__dict__.setdefault('_numbered', {})
    if t._n.nid in seen:
        return
    k = civil_key(t)
    for n, q in seen.values():
        a, b = N._b(t._n < n), N._b(const(k) < q)
        e, f = N._b(t._n == n), N._b(const(k) == q)
        ex.take(N.land(N.lor(N.land(a, b), N.land(N.lnot(a), N.lnot(b))), N.lor(N.land(e, f), N.land(N.lnot(e), N.lnot(f)))))
    seen[t._n.nid] = (t._n, const(k))


ABSTRACT = False
ORDINAL, DIM = ordinal, dim


def abstract():
    """Day numbers and business-day rolls become unknowns that satisfy the laws below (true of the Gregorian calendar and of
    numpy's busday_offset) instead of formulas: the solver then decides for every calendar, and formulas only serve replays."""
    global ABSTRACT
    ABSTRACT = True


def unknown(kind, lo, hi, value):
    ex = Ctl.explorer
    k = ex.__dict__.setdefault('_nunknown', {})
    k[kind] = k.get(kind, -1) + 1
    nm = f'{kind}@{k[kind]}'
    v = N.var(nm, 'I')
    ex.facts.declare(v, lo, False, hi, False)
    ex.vars[nm] = (v, (lo, hi))
    ex.derived.append((v.val, value))
    return v


def implies(a, b):
    return N.lor(N.lnot(N._b(a)), N._b(b))


_SPAN = {}


def span(k):
    """least and greatest number of days between the firsts of two months k >= 0 months apart"""
    if k not in _SPAN:
        firsts = [_dt.date(1996 + i // 12, i % 12 + 1, 1).toordinal() for i in range(60)]
        firsts += [_dt.date(1897 + i // 12, i % 12 + 1, 1).toordinal() for i in range(84)]     # 1900 is not a leap year
        if k > 40:
            return 28 * k, 31 * k
        ds = [b - a for x in (firsts[:60], firsts[60:]) for a, b in zip(x, x[k:])]
        _SPAN[k] = min(ds), max(ds)
    return _SPAN[k]


def month(t):
    """month index of a date as (symbolic base, constant)"""
    if getattr(t, '_mi', None) is None:
        y, m, d = t._ymd
        b = y * 12 + m - 1
        t._mi = (b, 0) if isnode(b) else (0, b)
    return t._mi


def firsts(mi, y, m):
    """(first day number, length) of a month; first days obey: equal for equal months, otherwise apart by the month lengths between"""
    ex = Ctl.explorer
    cache = ex.__dict__.setdefault('_firsts', {})
    b, k = mi
    key = (b.nid if isnode(b) else None, k)
    if key not in cache:
        ref = ORDINAL(y, m, 1)
        ref2 = DIM(y, m)
        lo, hi = int(ordinal(LO - 5, 1, 1)), int(ordinal(HI + 5, 1, 1))
        ev = lambda r: (lambda env: int(N.evalf(r, dict(env)))) if isnode(r) else (lambda env: r)
        if isnode(y, m):
            v, L = unknown('first', lo, hi, ev(ref)), unknown('length', 28, 31, ev(ref2))
        else:
            v, L = ref, ref2
        M = b + k
        for (q, k2), (b2, v2, L2) in cache.items():
            if q == key[0]:
                lo_, hi_ = span(abs(k2 - k) - 1)
                x, Lx, y_ = (v, L, v2) if k2 > k else (v2, L2, v)
                ex.take(N.land(N._b(x + Lx + lo_ <= y_), N._b(y_ <= x + Lx + hi_)))
                lo_, hi_ = span(abs(k2 - k))
                ex.take(N.land(N._b(x + lo_ <= y_), N._b(y_ <= x + hi_)))
                continue
            M2 = b2 + k2
            ex.take(implies(M == M2, N.land(N.eq(const(v), const(v2)), N.eq(const(L), const(L2)))))
            ex.take(implies(M < M2, N.land(N._b(v + L + (M2 - M - 1) * 28 <= v2), N._b(v2 <= v + L + (M2 - M - 1) * 31))))
            ex.take(implies(M2 < M, N.land(N._b(v2 + L2 + (M - M2 - 1) * 28 <= v), N._b(v <= v2 + L2 + (M - M2 - 1) * 31))))
        cache[key] = (b, v, L)
    return cache[key][1:]


def number(t):
    v, L = firsts(month(t), *t._ymd[:2])
    return v + t._ymd[2] - 1


def roll_unknown(t, roll, cal, offset):
    """numpy's busday_offset(t, offset, roll): laws = bounded shift, monotone in t, identity on dates already rolled (offset 0)"""
    ex = Ctl.explorer
    cache = ex.__dict__.setdefault('_rolls', {})
    done = ex.__dict__.setdefault('_busdays', {})
    n = t.n
    if offset == 0 and (n.nid, id(cal)) in done:
        return t
    key = (n.nid, roll, id(cal), offset)
    if key in cache:
        return cache[key][0]
    most = 2 + len(_calendar(cal)[1])

    def value(env):
        env = dict(env)
        c = np.busdaycalendar(holidays=[_dt.date(1970, 1, 1) + _dt.timedelta(days=int(N.evalf(const(h), env))) for h in _calendar(cal)[1]])
        x = _dt.date(1970, 1, 1) + _dt.timedelta(days=int(N.evalf(const(n), env)))
        return int(np.busday_offset(np.datetime64(x), offset, roll=roll, busdaycal=c).astype(int))
    lo, hi = int(ordinal(LO - 5, 1, 1)), int(ordinal(HI + 5, 1, 1))
    v = unknown('busday', lo, hi, value)
    far = abs(offset) * (1 + most)
    a = {'following': 0, 'forward': 0}.get(roll, most) + (far if offset < 0 else -offset if offset > 0 and roll in ('following', 'forward') else 0)
    b = {'preceding': 0, 'backward': 0}.get(roll, most) + (far if offset > 0 else 0)
    ex.take(N.land(n - a <= v, v <= n + b))
    if roll.startswith('modified') and offset == 0 and t._ymd is not None:
        x, L = firsts(month(t), *t._ymd[:2])
        ex.take(N.land(N._b(x <= v), N._b(v < x + L)))      # stays in its month
    u = TS(n=v)
    for q, (u2, n2) in cache.items():
        if q[1:] == key[1:]:
            ex.take(implies(n <= n2, v <= u2._n))
            ex.take(implies(n2 <= n, u2._n <= v))
    # a date that happens to equal a rolled one is a business day and stays
    for (q, c2), b in done.items():
        if c2 == id(cal) and offset == 0:
            ex.take(implies(n == b, v == n))
    for q, (u2, n2) in cache.items():
        if q[2:] == (id(cal), 0):
            ex.take(implies(n2 == v, u2._n == n2))
    cache[key] = (u, n)
    done[(v.nid, id(cal))] = v
    return u


def civil_key(t):
    y, m, d = t._ymd
    if ABSTRACT and isnode(y, m):
        b, k = month(t)
        return (b + k) * 31 + d
    return y * 372 + m * 31 + d - 31


class TS:
    """symbolic pd.Timestamp (whole days)"""
    _symx_sym = True
    _symx_date = True

    def __init__(self, y=None, m=None, d=None, n=None):
        self._ymd = None if y is None else (y, m, d)
        self._n = n
        self._mi = None

    # -- parts ----------------------------------------------------------------
    @property
    def n(self):
        if self._n is None:
            if ABSTRACT and isnode(*self._ymd):
                self._n = number(self)
            else:
                self._n = ordinal(*self._ymd)
            if isnode(self._n):
                monotone(self)
        return self._n

    def ymd(self):
        if self._ymd is None:
            if not isnode(self._n):
                t = _dt.date(1970, 1, 1) + _dt.timedelta(days=int(self._n))
                self._ymd = (t.year, t.month, t.day)
            else:
                self._ymd = civil(self._n)
        return self._ymd

    year = property(lambda s: s.ymd()[0])
    month = property(lambda s: s.ymd()[1])
    day = property(lambda s: s.ymd()[2])
    hour = minute = second = microsecond = nanosecond = 0
    tzinfo = tz = None

    @property
    def days_in_month(self):
        y, m, d = self.ymd()
        if ABSTRACT and isnode(y, m):
            return firsts(month(self), y, m)[1]
        return dim(y, m)
    daysinmonth = days_in_month

    @property
    def is_leap_year(self):
        return leap(self.year)

    @property
    def is_month_end(self):
        return N._b(self.day == self.days_in_month)

    @property
    def is_month_start(self):
        return N._b(self.day == 1)

    @property
    def quarter(self):
        return (self.month + 2) // 3

    def weekday(self):
        return (self.n + 3) % 7
    dayofweek = property(weekday)
    day_of_week = dayofweek

    @property
    def dayofyear(self):
        return self.n - ordinal(self.year, 1, 1) + 1
    day_of_year = dayofyear

    def toordinal(self):
        return self.n + 719163

    def replace(self, year=None, month=None, day=None, **k):
        y, m, d = self.ymd()
        if any(isinstance(x, str) for x in (year, month, day)):
            raise ValueError('value must be an integer')
        if year is None and month is None:
            if bool(_lt(self.days_in_month, day)) or bool(_lt(day, 1)):
                raise ValueError('day is out of range for month')
            return self.on(day)
        y, m, d = y if year is None else year, m if month is None else month, d if day is None else day
        if bool(_lt(dim(y, m), d)):
            raise ValueError('day is out of range for month')
        return TS(y, m, d)

    def on(self, day):
        """another day of the same month"""
        y, m, d = self.ymd()
        u = TS(y, m, day)
        u._mi = getattr(self, '_mi', None)
        return u

    def date(self): return self
    def normalize(self): return self
    def to_pydatetime(self): return self
    def to_timestamp(self): return self
    def to_numpy(self, *a, **k): return self
    def to_datetime64(self): return self
    asm8 = property(lambda s: s)
    def floor(self, *a): return self
    def item(self): return self

    def astype(self, *a, **k): return self

    def strftime(self, f): return '<date>'
    def isoformat(self, *a): return '<date>'
    def __repr__(self): return '<date>'
    __str__ = __repr__
    def __format__(self, f): return '<date>'

    # -- order ----------------------------------------------------------------
    def key(self):
        return 'n' if self._n is not None else 'c'

    def _pair(self, o):
        o = ts(o)
        if ABSTRACT and any(t._n is not None and isnode(t._n) and t._mi is None for t in (self, o)):
            return self.n, o.n        # a rolled date: known by its day number
        if self._ymd is not None and o._ymd is not None:
            return civil_key(self), civil_key(o)
        return self.n, o.n

    def _cmp(self, o, f):
        if isinstance(o, (DTI, pd.DatetimeIndex, pd.Series, np.ndarray)):
            return NotImplemented
        if o is None or o is pd.NaT:
            return False
        try:
            a, b = self._pair(o)
        except TypeError:
            return NotImplemented
        return f(a, b)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        if o is None or o is pd.NaT:
            return True
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    __hash__ = object.__hash__

    # -- arithmetic -----------------------------------------------------------
    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return SA([self + e for e in o.flat]).reshape(o.shape)
        return add_offset(self, o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, TS) or isinstance(o, (pd.Timestamp, _dt.date, np.datetime64)):
            return TD(self.n - ts(o).n)
        if isinstance(o, (DTI, pd.DatetimeIndex)):
            return DTI([self] * len(o)) - o
        return add_offset(self, o, -1)

    def __rsub__(self, o):
        return TD(ts(o).n - self.n)

    def _symx_isinstance(self, cls):
        return _isdate(cls)


def _isdate(cls):
    if isinstance(cls, tuple):
        return any(_isdate(c) for c in cls)
    if isinstance(cls, types.UnionType):
        return any(_isdate(c) for c in cls.__args__)
    cls = getattr(cls, '_symx_real', cls)
    return cls in (pd.Timestamp, _dt.date, _dt.datetime, TS, object)


def _lt(a, b):
    return N._b(a < b) if isnode(a, b) else a < b


def ts(x):
    if isinstance(x, TS):
        return x
    if isinstance(x, np.datetime64):
        x = pd.Timestamp(x)
    if isinstance(x, (pd.Timestamp, _dt.datetime, _dt.date)):
        return TS(x.year, x.month, x.day)
    if isinstance(x, np.ndarray) and x.size == 1:
        return ts(x.reshape(-1)[0])
    if isinstance(x, str):
        return ts(pd.Timestamp(x))
    raise TypeError(f'not a date: {type(x)}')


def civil(n):
    """year, month, day of a symbolic day number: fresh integers tied to it"""
    ex = Ctl.explorer
    cache = ex.__dict__.setdefault('_civil', {})
    if n.nid in cache:
        return cache[n.nid]
    k = getattr(ex, 'ncivil', 0)
    ex.ncivil = k + 1
    out = []
    for part, lo, hi in (('y', LO - 5, HI + 5), ('m', 1, 12), ('d', 1, 31)):
        nm = f'civil@{k}{part}'
        v = N.var(nm, 'I')
        ex.facts.declare(v, lo, False, hi, False)
        ex.vars[nm] = (v, (lo, hi))
        out.append(v)

    def part(i):
        def f(env):
            t = _dt.date(1970, 1, 1) + _dt.timedelta(days=int(N.evalf(n, dict(env))))
            return (t.year, t.month, t.day)[i]
        return f
    for i, v in enumerate(out):
        ex.derived.append((v.val, part(i)))
    ex.take(N._b(out[2] <= dim(out[0], out[1])))
    ex.take(N.eq(ordinal(*out), n))
    cache[n.nid] = tuple(out)
    return cache[n.nid]


def small_shift(t, k):
    """t + k days for a constant |k| <= 28, keeping year/month/day explicit"""
    y, m, d = t.ymd()
    if k == 0:
        return t
    n = t._n + k if t._n is not None else None
    if k > 0:
        L = dim(y, m)
        over = _lt(L, d + k)
        m2 = ite(over, ite(N._b(m == 12) if isnode(m) else m == 12, 1, m + 1), m)
        y2 = ite(N.land(N._b(over), N._b(m == 12)) if isnode(over) or isnode(m) else (over and m == 12), y + 1, y)
        return TS(y2, m2, ite(over, d + k - L, d + k), n)
    pm = ite(N._b(m == 1) if isnode(m) else m == 1, 12, m - 1)
    py = ite(N._b(m == 1) if isnode(m) else m == 1, y - 1, y)
    under = _lt(d + k, 1)
    return TS(ite(under, py, y), ite(under, pm, m), ite(under, d + k + dim(py, pm), d + k), n)


def add_months(t, k):
    y, m, d = t.ymd()
    if not isinstance(k, Node) and k == 0:
        return t
    x = m - 1 + k
    y2, m2 = y + x // 12, x % 12 + 1
    if ABSTRACT and isnode(y, m) and not isnode(k):
        b, k0 = month(t)
        mi = (b, k0 + k)
        L = firsts(mi, y2, m2)[1]
        u = TS(y2, m2, ite(_lt(L, d), L, d))
        u._mi = mi
        return u
    L = dim(y2, m2)
    return TS(y2, m2, ite(_lt(L, d), L, d))


def add_offset(t, o, sign):
    if isinstance(o, TD):
        return TS(n=t.n + sign * o.days)
    if isinstance(o, (pd.Timedelta, _dt.timedelta)):
        o = pd.Timedelta(o)
        if o != pd.Timedelta(days=o.days):
            raise Unsupported('time of day')
        return TS(n=t.n + sign * o.days)
    if isinstance(o, np.timedelta64):
        return TS(n=t.n + sign * int(o.astype('timedelta64[D]').astype(int)))
    if isinstance(o, pd.offsets.MonthEnd):
        y, m, d = t.ymd()
        L = t.days_in_month
        k = sign * o.n
        if k == 0:
            return t.on(L)
        end = bool(N._b(d == L)) if isnode(d, L) else d == L
        if k > 0:
            u = add_months(TS(y, m, 1), k if end else k - 1)
        else:
            u = add_months(TS(y, m, 1), k)
        return u.on(u.days_in_month)
    if isinstance(o, pd.offsets.Day):
        return TS(n=t.n + sign * o.n)
    if isinstance(o, pd.DateOffset) and type(o) is pd.DateOffset:
        kw = {k: v * o.n for k, v in o.kwds.items()}
        if o.kwds == {}:
            kw = {'days': o.n}
        bad = {k: v for k, v in kw.items() if k not in ('years', 'months', 'weeks', 'days') and v}
        if bad:
            raise Unsupported(f'DateOffset {bad}')
        months = sign * (12 * kw.get('years', 0) + kw.get('months', 0))
        days = sign * (7 * kw.get('weeks', 0) + kw.get('days', 0))
        u = add_months(t, months)
        if isnode(days) or days:
            u = TS(n=u.n + days)
        return u
    raise Unsupported(f'date offset {type(o)}')


class TD:
    """symbolic pd.Timedelta of whole days"""
    _symx_sym = True

    def __init__(self, days):
        self.days = days

    def total_seconds(self): return self.days * 86400
    def to_pytimedelta(self): return self
    def to_numpy(self): return self
    def item(self): return self
    def astype(self, *a): return self

    def _d(self, o):
        if isinstance(o, TD):
            return o.days
        if isinstance(o, (pd.Timedelta, _dt.timedelta, np.timedelta64)):
            return const(N.Fraction(pd.Timedelta(o).value, 86400 * 10**9)) if pd.Timedelta(o).value % (86400 * 10**9) else pd.Timedelta(o).days
        raise TypeError('timedelta')

    def __lt__(self, o): return self.days < self._d(o)
    def __le__(self, o): return self.days <= self._d(o)
    def __gt__(self, o): return self.days > self._d(o)
    def __ge__(self, o): return self.days >= self._d(o)
    def __eq__(self, o): return self.days == self._d(o)
    __hash__ = object.__hash__
    def __neg__(self): return TD(-self.days)
    def __abs__(self): return TD(abs(self.days))

    def __truediv__(self, o):
        if isinstance(o, (TD, pd.Timedelta, _dt.timedelta, np.timedelta64)):
            return self.days / self._d(o)
        raise Unsupported('timedelta / number')

    def __add__(self, o):
        if isinstance(o, (TD, pd.Timedelta, _dt.timedelta)):
            return TD(self.days + self._d(o))
        return add_offset(ts(o), self, 1)

    __radd__ = __add__

    def _symx_isinstance(self, cls):
        cs = cls if isinstance(cls, tuple) else (cls,)
        return any(getattr(c, '_symx_real', c) in (pd.Timedelta, _dt.timedelta, TD) for c in cs)


class DTI:
    """symbolic pd.DatetimeIndex"""
    _symx_sym = True

    def __init__(self, xs, name=None):
        self.xs = [ts(x) for x in xs]
        self.name = name
        self.freq = None

    def __len__(self): return len(self.xs)
    def __iter__(self): return iter(self.xs)
    size = property(lambda s: len(s.xs))
    shape = property(lambda s: (len(s.xs),))
    ndim = 1
    dtype = np.dtype('datetime64[ns]')

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)):
            return self.xs[k]
        return DTI(list(SA(self.xs)[k]))

    @property
    def values(self):
        a = np.empty(len(self.xs), dtype=object)
        for i, x in enumerate(self.xs):
            a[i] = x
        return a.view(SA)

    def to_numpy(self, *a, **k): return self.values
    def to_list(self): return list(self.xs)
    tolist = to_list
    def to_pydatetime(self): return self.values
    def astype(self, *a, **k): return self
    def normalize(self): return self
    def copy(self, *a, **k): return DTI(self.xs)
    def map(self, f): return SA([f(x) for x in self.xs])
    def append(self, o): return DTI(self.xs + list(o))
    def to_series(self, *a, **k): return pd.Series(self.xs, dtype=object)
    def repeat(self, n): return DTI([x for x in self.xs for _ in range(n)])
    def to_period(self, *a): raise Unsupported('Period')

    def __getattr__(self, k):
        if k in ('year', 'month', 'day', 'days_in_month', 'daysinmonth', 'is_leap_year', 'is_month_end', 'is_month_start', 'dayofyear', 'day_of_year', 'dayofweek', 'day_of_week', 'weekday', 'quarter'):
            return SA([x.weekday() if k == 'weekday' else getattr(x, k) for x in self.xs])
        raise AttributeError(k)

    def _other(self, o):
        if isinstance(o, TS) or isinstance(o, (pd.Timestamp, _dt.date, np.datetime64)):
            return [ts(o)] * len(self)
        xs = [ts(x) for x in o]
        if len(xs) != len(self):
            raise ValueError('Lengths must match')
        return xs

    def _cmp(self, o, f):
        return SA([f(a, b) for a, b in zip(self.xs, self._other(o))])

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    __hash__ = object.__hash__

    def __sub__(self, o):
        if isinstance(o, (TD, pd.Timedelta, _dt.timedelta, pd.DateOffset, np.timedelta64)):
            return DTI([x - o for x in self.xs])
        return TDI([a - b for a, b in zip(self.xs, self._other(o))])

    def __rsub__(self, o):
        return TDI([b - a for a, b in zip(self.xs, self._other(o))])

    def __add__(self, o):
        if isinstance(o, TDI):
            return DTI([a + b for a, b in zip(self.xs, o.xs)])
        return DTI([x + o for x in self.xs])

    __radd__ = __add__

    def _symx_isinstance(self, cls):
        cs = cls if isinstance(cls, tuple) else (cls,)
        return any(getattr(c, '_symx_real', c) in (pd.DatetimeIndex, pd.Index, DTI) for c in cs)


class TDI:
    _symx_sym = True

    def __init__(self, xs):
        self.xs = xs

    def __len__(self): return len(self.xs)
    def __iter__(self): return iter(self.xs)
    def __getitem__(self, k): return self.xs[k]
    days = property(lambda s: SA([x.days for x in s.xs]))
    values = property(lambda s: s)
    def to_numpy(self, *a, **k): return self
    def astype(self, d, *a, **k):
        return self if 'm8' in str(d) or 'timedelta' in str(d) else self.days
    def total_seconds(self): return self.days * 86400
    def __truediv__(self, o): return SA([x / o for x in self.xs])


# ---- module proxies ------------------------------------------------------------
class _Meta(type):
    def __instancecheck__(cls, x):
        if getattr(x, '_symx_sym', False) and hasattr(x, '_symx_isinstance'):
            return x._symx_isinstance(cls._symx_real)
        return isinstance(x, cls._symx_real)

    def __getattr__(cls, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return getattr(cls.__dict__['_symx_real'], k)


def _proxy(real, make):
    def new(cls, *a, **k):
        return make(*a, **k)
    return _Meta(real.__name__, (), {'_symx_real': real, '__new__': new})


def _sym(x):
    if isinstance(x, (TS, TD, DTI, TDI, Node)):
        return True
    if isinstance(x, pd.Series):
        return x.dtype == object and any(isinstance(v, TS) for v in x.values)
    if isinstance(x, (list, tuple, np.ndarray)):
        return any(_sym(e) for e in (x.flat if isinstance(x, np.ndarray) else x))
    return False


def _timestamp(*a, **k):
    if a and _sym(a[0]):
        if isinstance(a[0], Node):
            return TS(*a[:3])
        return ts(a[0])
    if any(isnode(v) for v in list(a) + list(k.values())):
        return TS(k.get('year', a[0] if a else None), k.get('month', a[1] if len(a) > 1 else None), k.get('day', a[2] if len(a) > 2 else None))
    return pd.Timestamp(*a, **k)


def _dtindex(data=None, *a, **k):
    if _sym(data):
        return DTI(list(data))
    return pd.DatetimeIndex(data, *a, **k)


def _to_datetime(x, *a, **k):
    if isinstance(x, TS):
        return x
    if _sym(x):
        if isinstance(x, pd.Series):
            return x
        return DTI(list(x))
    return pd.to_datetime(x, *a, **k)


def _timedelta(*a, **k):
    if any(isnode(v) for v in list(a) + list(k.values())):
        return TD(k.get('days', a[0] if a else 0) + 7 * k.get('weeks', 0))
    return pd.Timedelta(*a, **k)


def _offset(*a, **k):
    if any(isnode(v) for v in k.values()):
        o = pd.DateOffset(**{q: 0 for q in k})
        o = types.SimpleNamespace(kwds=k, n=1)
        raise Unsupported('DateOffset with a symbolic count')
    return pd.DateOffset(*a, **k)


def _isnull(real):
    def f(x):
        if isinstance(x, (TS, Node)):
            return False
        if isinstance(x, DTI) or isinstance(x, SA):
            return np.array([f(e) for e in x], dtype=bool)
        return real(x)
    return f


class _Mod(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self._real, self._over = real, over

    def __getattr__(self, k):
        o = self.__dict__['_over']
        if k in o:
            return o[k]
        return getattr(self.__dict__['_real'], k)


def _datetime(*a, **k):
    if any(isnode(v) for v in list(a) + list(k.values())):
        v = [k.get(q, a[i] if i < len(a) else None) for i, q in enumerate(('year', 'month', 'day'))]
        if bool(_lt(v[2], 1)) or bool(_lt(dim(v[0], v[1]), v[2])):
            raise ValueError('day is out of range for month')
        return TS(*v)
    return _dt.datetime(*a, **k)


def _date(*a, **k):
    r = _datetime(*a, **k)
    return r.date()


def _pytd(*a, **k):
    if any(isnode(v) for v in list(a) + list(k.values())):
        return TD(k.get('days', a[0] if a else 0) + 7 * k.get('weeks', 0))
    return _dt.timedelta(*a, **k)


def _isleap(y):
    return ite(leap(y), 1, 0) if isnode(y) else _cal.isleap(y)


def _monthrange(y, m):
    if not isnode(y, m):
        return _cal.monthrange(y, m)
    return (ordinal(y, m, 1) + 3) % 7, dim(y, m)


PTimestamp = _proxy(pd.Timestamp, _timestamp)
PDTI = _proxy(pd.DatetimeIndex, _dtindex)
PTimedelta = _proxy(pd.Timedelta, _timedelta)
PDatetime = _proxy(_dt.datetime, _datetime)
PDate = _proxy(_dt.date, _date)
PTd = _proxy(_dt.timedelta, _pytd)
PD = _Mod(pd, dict(Timestamp=PTimestamp, DatetimeIndex=PDTI, to_datetime=_to_datetime, Timedelta=PTimedelta, isna=_isnull(pd.isna), isnull=_isnull(pd.isnull),
                   notna=lambda x: np.logical_not(_isnull(pd.isna)(x)), notnull=lambda x: np.logical_not(_isnull(pd.isna)(x))))
DT = _Mod(_dt, dict(datetime=PDatetime, date=PDate, timedelta=PTd))
CAL = _Mod(_cal, dict(isleap=_isleap, monthrange=_monthrange))


# ---- business days -------------------------------------------------------------
class Cal:
    """np.busdaycalendar with the Saturday/Sunday mask and symbolic holidays"""
    _symx_sym = True

    def __init__(self, holidays=()):
        self.hols = [ts(h) for h in holidays]
        self.weekmask = np.array([1, 1, 1, 1, 1, 0, 0], dtype=bool)

    @property
    def holidays(self):
        return SA(self.hols)

    def _symx_isinstance(self, cls):
        cs = cls if isinstance(cls, tuple) else (cls,)
        return any(c is np.busdaycalendar for c in cs)


def _calendar(cal):
    if isinstance(cal, Cal):
        return [True] * 5 + [False] * 2, [h.n for h in cal.hols]
    if cal is None:
        return [True] * 5 + [False] * 2, []
    return [bool(x) for x in cal.weekmask], [int(h.astype('datetime64[D]').astype(int)) for h in cal.holidays]


def is_busday(n, cal):
    mask, hols = _calendar(cal)
    if not isnode(n) and not any(isnode(h) for h in hols):
        return mask[(n + 3) % 7] and n not in hols
    w = (n + 3) % 7
    off = [N._b(w == i) if isnode(w) else w == i for i in range(7) if not mask[i]]
    off += [N._b(const(n) == h) if isnode(h) or isnode(n) else n == h for h in hols]
    off = [const(o) if isinstance(o, bool) else o for o in off]
    return N.lnot(N.lor(*off)) if off else True


def _step(n, cal, sign, most):
    """signed number of days to the next business day from n in the direction sign, n included; at most `most` away"""
    r = None
    for k in range(most, -1, -1):
        b = is_busday(n + sign * k, cal)
        r = sign * k if r is None else ite(N._b(b) if isinstance(b, Node) else b, sign * k, r)
    return r


def roll_one(t, offset, roll, cal):
    mask, hols = _calendar(cal)
    most = 2 + len(hols)
    if not (mask[:5] == [True] * 5 and mask[5:] == [False] * 2):
        raise Unsupported('week mask')
    if isinstance(offset, Node):
        raise Unsupported('symbolic business day offset')
    offset = int(offset)
    if ABSTRACT and isnode(t.n) and roll != 'raise':
        return roll_unknown(t, roll, cal, offset)
    if roll == 'raise':
        if not bool(is_busday(t.n, cal)):
            raise ValueError('Non-business day date in busday_offset')
        s = 0
    elif roll in ('following', 'forward'):
        s = _step(t.n, cal, 1, most)
    elif roll in ('preceding', 'backward'):
        s = _step(t.n, cal, -1, most)
    elif roll in ('modifiedfollowing', 'modifiedpreceding'):
        f, b = _step(t.n, cal, 1, most), _step(t.n, cal, -1, most)
        y, m, d = t.ymd()
        if roll == 'modifiedfollowing':
            s = ite(_lt(dim(y, m), d + f), b, f)
        else:
            s = ite(_lt(d + b, 1), f, b)
    else:
        raise ValueError('Invalid business day roll parameter')
    u = t if not isnode(s) and s == 0 else TS(n=t.n + s)
    for _ in range(abs(offset)):
        sg = 1 if offset > 0 else -1
        u = TS(n=u.n + sg)
        u = TS(n=u.n + _step(u.n, cal, sg, most))
    return u


def busday_offset(dates, offsets, roll='raise', weekmask='1111100', holidays=None, busdaycal=None, out=None):
    if not _sym(dates) and not isinstance(busdaycal, Cal):
        return np.busday_offset(dates, offsets, roll=roll, weekmask=weekmask, holidays=holidays, busdaycal=busdaycal) if busdaycal is None else \
            np.busday_offset(dates, offsets, roll=roll, busdaycal=busdaycal)
    if busdaycal is None and (weekmask != '1111100' or holidays is not None):
        raise Unsupported('busday_offset options')
    if isinstance(dates, np.ndarray) and dates.ndim or isinstance(dates, (list, tuple, DTI)):
        xs = list(dates.flat) if isinstance(dates, np.ndarray) else list(dates)
        of = list(np.broadcast_to(np.asarray(offsets), (len(xs),)))
        r = SA([roll_one(ts(x), o, roll, busdaycal) for x, o in zip(xs, of)])
        return r.reshape(dates.shape) if isinstance(dates, np.ndarray) else r
    if np.ndim(offsets):
        return SA([roll_one(ts(dates), o, roll, busdaycal) for o in np.asarray(offsets).flat])
    return roll_one(ts(dates), offsets, roll, busdaycal)


def is_busday_(dates, weekmask='1111100', holidays=None, busdaycal=None, out=None):
    if not _sym(dates) and not isinstance(busdaycal, Cal):
        return np.is_busday(dates, busdaycal=busdaycal) if busdaycal is not None else np.is_busday(dates, weekmask=weekmask, holidays=holidays)
    if isinstance(dates, (np.ndarray, list, tuple, DTI)) and not (isinstance(dates, np.ndarray) and dates.ndim == 0):
        return SA([is_busday(ts(x).n, busdaycal) for x in (dates.flat if isinstance(dates, np.ndarray) else dates)])
    return is_busday(ts(dates).n, busdaycal)


NP_EXTRA = dict(busday_offset=busday_offset, is_busday=is_busday_)


def patch():
    from .shim import Patch
    extra = [(pd, PD), (_dt, DT), (_cal, CAL), (_dt.datetime, PDatetime), (_dt.date, PDate), (_dt.timedelta, PTd), (pd.Timestamp, PTimestamp), (pd.DatetimeIndex, PDTI),
             (_cal.isleap, _isleap), (_cal.monthrange, _monthrange)]
    return Patch(extra=extra, np_extra=NP_EXTRA)


# ---- inputs --------------------------------------------------------------------
def date(c, name, lo=1990, hi=2110):
    """any calendar date of the years lo..hi"""
    y, m, d = c.int(name + 'y', lo, hi), c.int(name + 'm', 1, 12), c.int(name + 'd', 1, 31)
    if not c.sym:
        from .harness import Skip
        if d > _cal.monthrange(y, m)[1]:
            raise Skip()
        return pd.Timestamp(y, m, d)
    t = TS(y, m, d)
    c.assume(N._b(d <= t.days_in_month))
    return t


def num(t):
    """day number"""
    return ts(t).n


def parts(t):
    return t.year, t.month, t.day


def index(c, ds):
    return DTI(ds) if c.sym else pd.DatetimeIndex(ds)


def calendar(c, holidays=()):
    """weekends plus the given dates"""
    if c.sym:
        return Cal(holidays)
    return np.busdaycalendar(holidays=[np.datetime64(h, 'D') for h in holidays])


def rolled(c, t, roll, cal, offset=0):
    """t moved to a business day (numpy's busday_offset rules)"""
    if roll == 'unadjusted':
        return t
    if c.sym:
        return roll_one(ts(t), offset, roll, cal)
    return pd.Timestamp(np.busday_offset(np.datetime64(t, 'D'), offset, roll=roll, busdaycal=cal))


def moved(c, t, months=0, days=0):
    """calendar months with end-of-month clipping, then days"""
    if c.sym:
        u = add_months(ts(t), months)
        return u if not isnode(days) and days == 0 else TS(n=u.n + days)
    return t + pd.DateOffset(months=months) + pd.Timedelta(days=days)


def same(c, label, a, b):
    """two dates are the same day"""
    c.true(label, N._b(ts(a) == ts(b)) if c.sym else pd.Timestamp(a) == pd.Timestamp(b))
