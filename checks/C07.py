from symx.api import *
import pandas as pd
from frm.enums import CompoundingFreq as CF

FREQS = [CF.CONTINUOUS, CF.SIMPLE, CF.DAILY, CF.WEEKLY, CF.MONTHLY, CF.QUARTERLY, CF.SEMIANNUAL, CF.ANNUAL]
PER = dict(zip(FREQS, [None, None, 365, 52, 12, 4, 2, 1]))


def df_of(f, t, r):
    if f == CF.CONTINUOUS:
        return exp(-r * t)
    if f == CF.SIMPLE:
        return 1 / (1 + r * t)
    return exp(-PER[f] * t * log(1 + r / PER[f]))


def admissible(c, f, t, r):
    if f == CF.SIMPLE:
        c.assume(1 + r * t > 0)
    elif f != CF.CONTINUOUS:
        c.assume(1 + r / PER[f] > 0)


def wrap(c, form, *xs):
    """scalar, numpy array or pandas Series arguments"""
    if form == 'scalar':
        return xs[0]
    return vec(*xs) if form == 'array' else c.series(xs)


def vals(form, x):
    return [one(x)] if form == 'scalar' else list(np.asarray(x, dtype=object).ravel())


def terms(c, n):
    return [c.pos(f't{i}', typ=(0.1, 10)) for i in range(n)]


def rates(c, n, f, t):
    r = [c.real(f'r{i}', typ=(-0.02, 0.1)) for i in range(n)]
    for i in range(n):
        admissible(c, f, t[i], r[i])
    return r


def form_of(c):
    form = c.choice('form', ['scalar', 'array', 'series'])
    return form, 1 if form == 'scalar' else 2


def to_discount_factor(c):
    f = c.choice('freq', FREQS)
    form, n = form_of(c)
    t = terms(c, n)
    r = rates(c, n, f, t)
    D = c.no_raise('discount_factor', f.calc_discount_factor_from_zero_rate, years=wrap(c, form, *t), zero_rate=wrap(c, form, *r))
    back = c.no_raise('zero_rate', f.calc_zero_rate_from_discount_factor, years=wrap(c, form, *t), discount_factor=D)
    for i, (d, b) in enumerate(zip(vals(form, D), vals(form, back))):
        c.eq('formula', d, df_of(f, t[i], r[i]))
        c.eq('inverse', b, r[i])
        c.true('positive', d > 0)
    z = f.calc_discount_factor_from_zero_rate(years=t[0], zero_rate=0.0)
    c.eq('zero_rate_is_par', one(z), 1)


def to_zero_rate(c):
    f = c.choice('freq', FREQS)
    form, n = form_of(c)
    t = terms(c, n)
    D = [c.pos(f'D{i}', typ=(0.5, 1.1)) for i in range(n)]
    r = c.no_raise('zero_rate', f.calc_zero_rate_from_discount_factor, years=wrap(c, form, *t), discount_factor=wrap(c, form, *D))
    back = c.no_raise('discount_factor', f.calc_discount_factor_from_zero_rate, years=wrap(c, form, *t), zero_rate=r)
    for i, (x, b) in enumerate(zip(vals(form, r), vals(form, back))):
        c.eq('formula', df_of(f, t[i], x), D[i])
        c.eq('inverse', b, D[i])
    z = f.calc_zero_rate_from_discount_factor(years=t[0], discount_factor=1.0)
    c.eq('par_is_zero_rate', one(z), 0)


def convert(c):
    f = c.choice('from', FREQS)
    g = c.choice('to', FREQS)
    form, n = form_of(c)
    t = terms(c, n)
    r = rates(c, n, f, t)
    k = dict(years=wrap(c, form, *t)) if CF.SIMPLE in (f, g) or c.choice('term', [False, True]) else {}
    x = c.no_raise('convert', f.convert_rate_to, zero_rate=wrap(c, form, *r), target_compounding_freq=g, **k)
    for i, y in enumerate(vals(form, x)):
        c.eq('same_discount_factor', df_of(g, t[i], y), df_of(f, t[i], r[i]))
        if f == g:
            c.eq('identity', y, r[i])
        c.eq('library_discount_factor', one(g.calc_discount_factor_from_zero_rate(t[i], y)), one(f.calc_discount_factor_from_zero_rate(t[i], r[i])))


if __name__ == '__main__':
    run('C07', [('to_discount_factor', to_discount_factor), ('to_zero_rate', to_zero_rate), ('convert', convert)],
        bounds=dict(conventions='all eight and all ordered pairs', forms='scalars, arrays and Series of two', rates='every rate with a positive discount factor', terms='every positive term'),
        assumptions=ASSUME_REAL)
