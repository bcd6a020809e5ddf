"""pandas methods that refuse object columns, for columns that carry symbols."""
import math
import numpy as np
import pandas as pd
from .node import Node, Unsupported, const

_interpolate = pd.Series.interpolate


def _null(v):
    return not isinstance(v, Node) and (v is None or v is pd.NaT or (isinstance(v, (float, np.floating)) and math.isnan(v)))


def _symbolic(s):
    return s.dtype == object and any(isinstance(v, Node) for v in s.values)


def series_interpolate(self, method='linear', *, axis=0, limit=None, inplace=False, limit_direction=None, limit_area=None, downcast=None, **k):
    if not _symbolic(self):
        s = self.astype(float) if self.dtype == object else self
        return _interpolate(s, method=method, axis=axis, limit=limit, inplace=inplace, limit_direction=limit_direction, limit_area=limit_area, **k)
    if inplace or limit is not None or limit_direction not in (None, 'forward') or method not in ('linear', 'time', 'index', 'values'):
        raise Unsupported('Series.interpolate options')
    v = list(self.values)
    if method == 'time':
        if not isinstance(self.index, pd.DatetimeIndex):
            raise ValueError('time-weighted interpolation only works on Series or DataFrames with a DatetimeIndex')
        x = [t.value for t in self.index]
    elif method == 'linear':
        x = list(range(len(v)))
    else:
        x = [t.value if isinstance(t, pd.Timestamp) else float(t) for t in self.index]
    known = sorted((x[i], i) for i in range(len(v)) if not _null(v[i]))
    out = list(v)
    for i in range(len(v)):
        if not _null(v[i]):
            continue
        lo = [k for k in known if k[0] <= x[i]]
        hi = [k for k in known if k[0] >= x[i]]
        if lo and hi:
            (a, ia), (b, ib) = lo[-1], hi[0]
            from fractions import Fraction
            w = Fraction(int(x[i] - a), int(b - a)) if method in ('time', 'linear') else (x[i] - a) / (b - a)
            out[i] = v[ia] + (v[ib] - v[ia]) * w
        elif lo and limit_area != 'inside':
            out[i] = v[lo[-1][1]]
    return pd.Series(out, index=self.index, dtype=object, name=self.name)


ATTRS = [(pd.Series, 'interpolate', series_interpolate)]


_to_numeric = pd.to_numeric


def to_numeric(x, *a, **k):
    if isinstance(x, pd.Series) and _symbolic(x):
        return x
    return _to_numeric(x, *a, **k)


ATTRS.append((pd, 'to_numeric', to_numeric))


_to_numpy = pd.Series.to_numpy


def series_to_numpy(self, dtype=None, *a, **k):
    if self.dtype == object and any(isinstance(v, Node) or getattr(v, '_symx_sym', False) for v in self.values):
        from .arr import SA
        return SA(list(self.values))
    return _to_numpy(self, dtype, *a, **k)


ATTRS.append((pd.Series, 'to_numpy', series_to_numpy))


def _reduction(name):
    real = getattr(pd.Series, name)

    def f(self, axis=None, skipna=True, numeric_only=False, ddof=1, **k):
        if not _symbolic(self):
            kw = dict(ddof=ddof) if name in ('var', 'std') else {}
            s = self.astype(float) if self.dtype == object and all(isinstance(v, (int, float, np.number)) for v in self.values) else self
            return real(s, axis=axis or 0, skipna=skipna, numeric_only=numeric_only, **kw, **k)
        if k or (axis not in (None, 0, 'index')):
            raise Unsupported(f'Series.{name} options')
        v = [x for x in self.values if not (skipna and _null(x))]
        if any(_null(x) for x in v):
            return math.nan
        n = len(v)
        s = 0
        for x in v:
            s = s + x
        m = s / n
        if name == 'mean':
            return m
        q = 0
        for x in v:
            q = q + (x - m) * (x - m)
        if n <= ddof:
            return math.nan
        q = q / (n - ddof)
        return q if name == 'var' else q ** 0.5
    return f


for _n in ('mean', 'var', 'std'):
    ATTRS.append((pd.Series, _n, _reduction(_n)))
