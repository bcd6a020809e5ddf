"""What the check files import."""
import math
import os
import sys
import numpy as np
from . import node as N
from .node import Node, Unsupported, const
from .arr import SA
from . import harness
from .shim import Patch, isym
from .harness import Stop, Skip


def _f(name, cf):
    def g(x):
        if isinstance(x, np.ndarray):
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = g(x[i])
            return out.view(SA) if any(isinstance(e, Node) for e in out.flat) else out.astype(float)
        if isinstance(x, Node):
            return getattr(N, name)(x)
        return cf(x)
    return g


def _ndtr(x):
    from scipy.special import ndtr
    return float(ndtr(x))


exp = _f('exp', math.exp)
log = _f('log', math.log)
sqrt = _f('sqrt', math.sqrt)
ncdf = _f('ncdf', _ndtr)
npdf = _f('npdf', lambda x: math.exp(-x * x / 2) / math.sqrt(2 * math.pi))


def ite(c, a, b):
    return N.ite(c, a, b) if isinstance(c, Node) else (a if c else b)


def power(a, b):
    return N.power(a, b) if isinstance(a, Node) or isinstance(b, Node) else a ** b


def land(*xs):
    if any(isinstance(x, Node) for x in xs):
        return N.land(*xs)
    return all(bool(x) for x in xs)


def lor(*xs):
    if any(isinstance(x, Node) for x in xs):
        return N.lor(*xs)
    return any(bool(x) for x in xs)


def lnot(x):
    return N.lnot(x) if isinstance(x, Node) else not x


def one(x):
    """the scalar inside a size-one result"""
    if hasattr(x, 'to_numpy') and not isinstance(x, np.ndarray):
        x = x.to_numpy()
    if isinstance(x, np.ndarray):
        return x.reshape(-1)[0] if x.size == 1 else x
    return x


def vec(*xs):
    return SA(list(xs)) if any(isinstance(x, Node) for x in xs) else np.array(xs)


def run(pid, harnesses, bounds, assumptions=(), patch=None, **k):
    sys.exit(harness.main(pid, harnesses, patch or Patch, bounds, assumptions, **k))

ASSUME_REAL = [
    'float64 arithmetic is read as exact real arithmetic over the decimals written in the source; rounding is outside the claim',
    'scipy.stats.norm.cdf/pdf/ppf, exp, log and sqrt are the mathematical functions; the encoding uses only sound laws about them',
    'coefficients that cancel to within 1e-12 relative are taken as equal (decimal constants written in two ways)',
]
