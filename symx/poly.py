"""Canonical (Laurent, fractional-power) polynomials over atoms.

Front-end of the solver queries: rewrites transcendental terms with sound
algebraic laws (exp(a+b)=exp(a)exp(b), exp(log x)=x, log(xy)=log x+log y for
x,y>0, sqrt(x)^2=x, N(-x)=1-N(x), ...) so that what is left for the SMT solver
is polynomial arithmetic over atoms.
"""
from fractions import Fraction
from math import gcd, lcm
from . import node as N
from .node import Node, Unsupported

SNAP = Fraction(1, 10 ** 12)
ZERO = {}
stats = {'snaps': 0, 'atoms': 0}


class Atom:
    __slots__ = ('i', 'kind', 'data', 'name')

    def __init__(self, i, kind, data, name):
        self.i, self.kind, self.data, self.name = i, kind, data, name

    def __repr__(self):
        return self.name


class Canon:
    """Canonicaliser bound to a set of facts (path condition)."""

    def __init__(self, facts):
        self.facts = facts
        self.atoms = []
        self.key = {}
        self.memo = {}
        self.dmemo = {}

    # ---- atoms -------------------------------------------------------
    def atom(self, kind, data, name):
        k = (kind, data)
        a = self.key.get(k)
        if a is None:
            a = Atom(len(self.atoms), kind, data, name)
            self.atoms.append(a)
            self.key[k] = a
            stats['atoms'] += 1
        return a

    def apos(self, a):
        """atom known > 0"""
        k = a.kind
        if k in ('exp', 'prime', 'pi', 'ncdf', 'root'):
            return True
        if k == 'var':
            return self.facts.positive(a.data)
        if k == 'base':
            return self.facts.poly_positive(self, a)
        if k == 'ite' or k == 'opaque':
            return self.facts.positive(a.data)
        if k == 'fn' and a.data[0] == 'nodefn':
            return False
        return self.facts.atom_positive(self, a)

    # ---- poly arithmetic --------------------------------------------
    def padd(self, p, q, c=1):
        if not q:
            return p
        r = dict(p)
        for m, v in q.items():
            v = v * c
            o = r.get(m)
            if o is None:
                r[m] = v
            else:
                s = o + v
                if s == 0:
                    del r[m]
                elif abs(s) < SNAP * max(abs(o), abs(v)):
                    stats['snaps'] += 1
                    del r[m]
                else:
                    r[m] = s
        return r

    def mmul(self, m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        d = dict(m1)
        for a, e in m2:
            s = d.get(a, 0) + e
            if s == 0:
                d.pop(a, None)
            else:
                d[a] = s
        return tuple(sorted(d.items()))

    def pmul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        if len(p) * len(q) > 400000:
            raise Unsupported('polynomial too large')
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m, k = self.norm_mono(self.mmul(m1, m2))
                v = c1 * c2 * k
                if m in r:
                    s = r[m] + v
                    if s == 0 or abs(s) < SNAP * max(abs(r[m]), abs(v)):
                        if s != 0:
                            stats['snaps'] += 1
                        del r[m]
                    else:
                        r[m] = s
                else:
                    r[m] = v
        return r

    def norm_mono(self, m):
        """integer powers of primes go to the coefficient."""
        k = Fraction(1)
        out = None
        for idx, (a, e) in enumerate(m):
            at = self.atoms[a]
            if at.kind == 'prime' and (e >= 1 or e < 0):
                if out is None:
                    out = list(m)
                n = e.numerator // e.denominator
                k *= Fraction(at.data) ** n
                out[idx] = (a, e - n)
        if out is None:
            return m, k
        return tuple((a, e) for a, e in out if e != 0), k

    def pscale(self, p, c):
        if c == 0:
            return {}
        return {m: v * c for m, v in p.items()}

    def cst(self, c):
        return {(): Fraction(c)} if c != 0 else {}

    def of_atom(self, a, e=Fraction(1)):
        m, k = self.norm_mono(((a.i, Fraction(e)),))
        return {m: k}

    def content(self, p):
        """p = c * mono * q, q primitive with leading coefficient 1; returns (c, mono, q)."""
        items = sorted(p.items())
        d = {}
        first = True
        for m, _ in items:
            md = dict(m)
            if first:
                d = dict(md)
                first = False
            else:
                for a in list(d):
                    d[a] = min(d[a], md.get(a, Fraction(0)))
                for a in md:
                    if a not in d:
                        d[a] = min(Fraction(0), md[a])
        mono = tuple(sorted((a, e) for a, e in d.items() if e != 0))
        inv = tuple((a, -e) for a, e in mono)
        q = {}
        for m, v in items:
            m2, k = self.norm_mono(self.mmul(m, inv))
            q[m2] = q.get(m2, 0) + v * k
        lead = max(q)
        c = q[lead]
        q = {m: v / c for m, v in q.items()}
        # inverse monomials of primes carried fractional parts; fine
        return c, mono, q

    def pkey(self, p):
        return tuple(sorted(p.items()))

    def ppow_int(self, p, n):
        r = self.cst(1)
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    def mono_pow(self, mono, e):
        """(product of atoms)^e, atoms positive or e integer."""
        r = self.cst(1)
        for a, x in mono:
            r = self.pmul(r, self.of_atom(self.atoms[a], x * e))
        return r

    def cpow(self, c, e):
        """rational c>0 to rational power."""
        if e.denominator == 1:
            return self.cst(c ** int(e))
        r = self.cst(1)
        for v, s in ((c.numerator, 1), (c.denominator, -1)):
            for pr, k in factor(v):
                r = self.pmul(r, self.of_atom(self.atom('prime', pr, str(pr)), e * k * s))
        return r

    def base_atom(self, q):
        for a in self.atoms:
            if a.kind == 'base' and self.is_zero(self.padd(dict(a.data), q, -1)):
                return a
        return self.atom('base', self.pkey(q), f'b{len(self.atoms)}')

    def ppow(self, p, e):
        """p ** e for rational e (p>0 if e fractional; p!=0 if e<0)."""
        e = Fraction(e)
        if not p:
            return {} if e > 0 else self._zero_div()
        if e.denominator == 1 and e >= 0 and (len(p) == 1 or e <= 6):
            if len(p) == 1:
                (m, c), = p.items()
                return self.pscale(self.mono_pow(m, e), c ** int(e))
            return self.ppow_int(p, int(e))
        if len(p) == 1:
            (m, c), = p.items()
            if e.denominator == 1:
                return self.pscale(self.mono_pow(m, e), c ** int(e))
            r = self._mono_root(m, c, e)
            if r is not None:
                return r
            a = self.base_atom(p)
            return self.of_atom(a, e)
        p = self.reduce(p)
        if len(p) <= 1:
            return self.ppow(p, e)
        c, mono, q = self.content(p)
        if e.denominator == 1:
            return self.pscale(self.pmul(self.mono_pow(mono, e), self.of_atom(self.base_atom(q), e)), c ** int(e))
        if c > 0 and all(self.apos(self.atoms[a]) for a, _ in mono):
            r = self.pmul(self.mono_pow(mono, e), self.cpow(c, e))
            return self.pmul(r, self.of_atom(self.base_atom(q), e))
        if c < 0 and all(self.apos(self.atoms[a]) for a, _ in mono):
            q2 = self.pscale(q, -1)
            r = self.pmul(self.mono_pow(mono, e), self.cpow(-c, e))
            return self.pmul(r, self.of_atom(self.base_atom(q2), e))
        return self.of_atom(self.base_atom(p), e)

    def _mono_root(self, m, c, e):
        if c < 0:
            neg = [a for a, x in m if x.denominator == 1 and x.numerator % 2]
            flip = None
            for a in neg:
                if self.facts.atom_negative(self, self.atoms[a]):
                    flip = a
            if flip is None:
                return None
        r = self.cst(1)
        sign = 1 if c > 0 else -1
        for a, x in m:
            at = self.atoms[a]
            if self.apos(at):
                r = self.pmul(r, self.of_atom(at, x * e))
            elif x.denominator == 1 and x % 2 == 0:
                # (a^2k)^e = |a|^(2k e)
                xe = x * e
                if self.facts.atom_negative(self, at):
                    if xe.denominator == 1:
                        r = self.pmul(r, self.pscale(self.of_atom(at, xe), (-1) ** int(xe)))
                        continue
                    return None
                if xe.denominator == 1 and xe % 2 == 0:
                    r = self.pmul(r, self.of_atom(at, xe))
                    continue
                if self.facts.atom_nonneg(self, at):
                    r = self.pmul(r, self.of_atom(at, xe))
                    continue
                return None
            elif self.facts.atom_nonneg(self, at):
                r = self.pmul(r, self.of_atom(at, x * e))
            elif self.facts.atom_negative(self, at):
                sign *= -1
                na = self.base_atom(self.pscale(self.of_atom(at), -1))
                r = self.pmul(r, self.of_atom(na, x * e))
            else:
                return None
        if sign < 0:
            return None
        return self.pmul(r, self.cpow(abs(c), e))

    def _zero_div(self):
        raise Unsupported('division by zero in canonical form')

    # ---- zero test and reduction --------------------------------------------
    def expand(self, p):
        """Multiply out base atoms (clearing negative powers): p*positive -> q.

        Returns q such that q == 0 (formally) implies p == 0."""
        while True:
            bases = {a for m in p for a, _ in m if self.atoms[a].kind == 'base'}
            todo = None
            for b in sorted(bases, reverse=True):
                exps = {dict(m).get(b, Fraction(0)) for m in p}
                lo = min(exps)
                if lo < 0 or any(x.denominator == 1 and x > 0 or x >= 1 for x in exps):
                    todo = (b, lo)
                    break
            if todo is None:
                return p
            b, lo = todo
            shift = -lo if lo < 0 else Fraction(0)
            if shift.denominator != 1:
                import math
                shift = Fraction(math.ceil(shift))
            Q = dict(self.atoms[b].data)
            groups = {}
            for m, v in p.items():
                d = dict(m)
                e = d.pop(b, Fraction(0)) + shift
                k = e.numerator // e.denominator
                f = e - k
                if f:
                    d[b] = f
                groups.setdefault(k, {})
                mm = tuple(sorted(d.items()))
                groups[k][mm] = groups[k].get(mm, 0) + v
            r = {}
            for k, g in groups.items():
                r = self.padd(r, self.pmul(g, self.ppow_int(Q, k)))
            p = r

    def expand_many(self, ps):
        """Jointly clear and multiply out base atoms of several polynomials
        (all multiplied by the same nonzero factor)."""
        import math
        ps = [dict(p) for p in ps]
        for _ in range(200):
            bases = {a for p in ps for m in p for a, _ in m if self.atoms[a].kind == 'base'}
            todo = None
            for b in sorted(bases, reverse=True):
                exps = {dict(m).get(b, Fraction(0)) for p in ps for m in p}
                lo = min(exps)
                if lo < 0 or any(x >= 1 for x in exps):
                    todo = (b, lo)
                    break
            if todo is None:
                return ps
            b, lo = todo
            shift = Fraction(math.ceil(-lo)) if lo < 0 else Fraction(0)
            Q = dict(self.atoms[b].data)
            res = []
            for p in ps:
                groups = {}
                for m, v in p.items():
                    d = dict(m)
                    e = d.pop(b, Fraction(0)) + shift
                    k = e.numerator // e.denominator
                    f = e - k
                    if f:
                        d[b] = f
                    mm = tuple(sorted(d.items()))
                    g = groups.setdefault(k, {})
                    g[mm] = g.get(mm, 0) + v
                r = {}
                for k, g in groups.items():
                    r = self.padd(r, self.pmul(g, self.ppow_int(Q, k)))
                res.append(r)
            ps = res
        raise Unsupported('expansion does not terminate')

    def is_zero(self, p):
        if not p:
            return True
        if not any(self.atoms[a].kind == 'base' for m in p for a, _ in m):
            return False
        try:
            return not self.expand(p)
        except Unsupported:
            return False

    def reduce(self, p):
        """Try to cancel base atoms in denominators by exact division."""
        bases = sorted({a for m in p for a, e in m if self.atoms[a].kind == 'base' and e < 0 and e.denominator == 1}, reverse=True)
        for b in bases:
            exps = {dict(m).get(b, Fraction(0)) for m in p}
            if any(e.denominator != 1 for e in exps):
                continue
            lo = int(min(exps))
            if lo >= 0:
                continue
            Q = dict(self.atoms[b].data)
            num = {}
            for m, v in p.items():
                d = dict(m)
                e = int(d.pop(b, 0)) - lo
                num = self.padd(num, self.pmul({tuple(sorted(d.items())): v}, self.ppow_int(Q, e)))
            k = -lo
            changed = False
            while k > 0:
                d = self.divide(num, Q)
                if d is None:
                    break
                num, k, changed = d, k - 1, True
            if changed:
                p = {}
                for m, v in num.items():
                    mm = self.mmul(m, ((b, Fraction(-k)),)) if k else m
                    p[mm] = p.get(mm, 0) + v
            if not num:
                return {}
        return p

    def clear(self, p):
        """multiply by atoms so that no exponent is negative (atoms with negative powers are non-zero)"""
        lo = {}
        for m in p:
            for a, e in m:
                if e < lo.get(a, 0):
                    lo[a] = e
        if not lo:
            return p
        s = tuple(sorted((a, -e) for a, e in lo.items()))
        r = {}
        for m, v in p.items():
            mm = self.mmul(m, s)
            r[mm] = r.get(mm, 0) + v
        return r

    def divide(self, num, Q):
        """exact division num/Q or None (lex order on exponent dicts)."""
        lead = max(Q, key=self._ord)
        lc = Q[lead]
        ld = dict(lead)
        r = dict(num)
        out = {}
        for _ in range(3000):
            if not r:
                return out
            m = max(r, key=self._ord)
            md = dict(m)
            t = {}
            for a in set(md) | set(ld):
                e = md.get(a, Fraction(0)) - ld.get(a, Fraction(0))
                if e < 0 and ld.get(a, 0) > 0:
                    return None
                if e:
                    t[a] = e
            tm = tuple(sorted(t.items()))
            c = r[m] / lc
            out[tm] = out.get(tm, 0) + c
            r = self.padd(r, self.pmul({tm: c}, Q), -1)
        return None

    def _ord(self, m):
        d = dict(m)
        return tuple((a, d[a]) for a in sorted(d, reverse=True))

    # ---- node -> poly -----------------------------------------------------
    def poly(self, n):
        if not isinstance(n, Node):
            n = N.const(n)
        r = self.memo.get(n.nid)
        if r is not None:
            return r
        # iterative post-order to avoid recursion limits on long chains
        stack = [n]
        while stack:
            t = stack[-1]
            if t.nid in self.memo:
                stack.pop()
                continue
            if t.op in ('add', 'mul', 'toreal'):
                pend = [a for a in t.args if a.nid not in self.memo]
                if pend:
                    stack.extend(pend)
                    continue
            self.memo[t.nid] = self._poly(t)
            stack.pop()
        return self.memo[n.nid]

    def _poly(self, n):
        op = n.op
        if op == 'const':
            return self.cst(Fraction(int(n.val)) if n.sort == 'B' else n.val)
        if op == 'var':
            return self.of_atom(self.atom('var', n, n.val))
        if op == 'add':
            return self.padd(self.poly(n.args[0]), self.poly(n.args[1]))
        if op == 'mul':
            return self.pmul(self.poly(n.args[0]), self.poly(n.args[1]))
        if op == 'toreal':
            return self.poly(n.args[0])
        if op == 'div':
            a, b = n.args
            pb = self.poly(b)
            if not pb:
                self._zero_div()
            return self.reduce(self.pmul(self.poly(a), self.ppow(pb, -1)))
        if op == 'pow':
            a, e = n.args[0], n.val
            if e.denominator == 1:
                return self.ppow(self.poly(a), e)
            return self.rpow(a, e)
        if op == 'fn':
            f = n.val
            if f == 'pi':
                return self.of_atom(self.atom('pi', 'pi', 'pi'))
            if f == 'exp':
                return self.pexp(self.poly(n.args[0]))
            if f == 'log':
                return self.plog(n.args[0])
            if f == 'ncdf':
                return self.pcdf(self.poly(n.args[0]))
            if f == 'nppf':
                return self.pppf(self.poly(n.args[0]))
            return self.of_atom(self.fn_atom(f, [self.reduce(self.poly(a)) for a in n.args], n))
        if op in ('ite', 'floor', 'idiv', 'imod'):
            return self.of_atom(self.atom('ite' if op == 'ite' else 'opaque', n, f'{op}{n.nid}'))
        raise Unsupported(f'polynomial of {op}')

    def rpow(self, a, e):
        """node a ** e, e fractional, splitting products of positive factors."""
        if a.op == 'mul':
            x, y = a.args
            if x is y:
                s = self.facts.sign(x)
                if s is not None and s != 0:
                    px = self.poly(x)
                    return self.ppow(px if s > 0 else self.pscale(px, -1), 2 * e)
            if self.facts.positive(x) and self.facts.nonneg(y) or self.facts.nonneg(x) and self.facts.positive(y):
                return self.pmul(self.rpow(x, e), self.rpow(y, e))
        if a.op == 'div':
            x, y = a.args
            if self.facts.positive(y):
                return self.pmul(self.rpow(x, e), self.rpow(y, -e))
        if a.op == 'pow':
            x, k = a.args[0], a.val
            if k.denominator != 1 or k % 2 or self.facts.positive(x):
                return self.rpow(x, e * k) if (e * k).denominator != 1 else self.ppow(self.poly(x), e * k)
            s = self.facts.sign(x)
            if s is not None and s != 0:
                px = self.poly(x)
                return self.ppow(px if s > 0 else self.pscale(px, -1), k * e)
        if a.op == 'fn' and a.val == 'exp':
            return self.pexp(self.pscale(self.poly(a.args[0]), e))
        return self.ppow(self.poly(a), e)

    def pexp(self, p):
        p = self.reduce(p)
        r = self.cst(1)
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'log':
                x = self.atoms[self.atoms[m[0][0]].data]
                r = self.pmul(r, self.of_atom(x, c))
            else:
                r = self.pmul(r, self.of_atom(self.atom('exp', m, 'exp[%s]' % self.mstr(m)), c))
        return r

    def plog(self, a):
        f = self.facts
        if a.op == 'fn' and a.val == 'exp':
            return self.poly(a.args[0])
        if a.op == 'mul' and f.positive(a.args[0]) and f.positive(a.args[1]):
            return self.padd(self.plog(a.args[0]), self.plog(a.args[1]))
        if a.op == 'div' and f.positive(a.args[0]) and f.positive(a.args[1]):
            return self.padd(self.plog(a.args[0]), self.plog(a.args[1]), -1)
        if a.op == 'pow' and f.positive(a.args[0]):
            return self.pscale(self.plog(a.args[0]), a.val)
        if a.op == 'toreal':
            return self.plog(a.args[0])
        return self.plog_poly(self.poly(a), a)

    def plog_poly(self, p, a=None):
        p = self.reduce(p)
        if not p:
            raise Unsupported('log(0)')
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0 and all(self.apos(self.atoms[x]) for x, _ in m):
                return self.padd(self.log_const(c), self.log_mono(m))
        else:
            c, m, q = self.content(p)
            if all(self.apos(self.atoms[x]) for x, _ in m):
                if c < 0:
                    c, q = -c, self.pscale(q, -1)
                b = self.base_atom(q)
                return self.padd(self.padd(self.log_const(c), self.log_mono(m)), self.log_atom(b))
        b = self.base_atom(p)
        return self.log_atom(b)

    def log_const(self, c):
        r = {}
        for v, s in ((c.numerator, 1), (c.denominator, -1)):
            for pr, k in factor(v):
                r = self.padd(r, self.log_atom(self.atom('prime', pr, str(pr))), Fraction(k * s))
        return r

    def log_mono(self, m):
        r = {}
        for a, e in m:
            r = self.padd(r, self.log_atom(self.atoms[a]), e)
        return r

    def log_atom(self, a):
        if a.kind == 'exp':
            return {a.data: Fraction(1)}
        return self.of_atom(self.atom('log', a.i, f'log[{a.name}]'))

    def _lead_neg(self, p):
        return bool(p) and p[max(p)] < 0

    def pcdf(self, p):
        p = self.reduce(p)
        if not p:
            return self.cst(Fraction(1, 2))
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'nppf':
                return dict(self.atoms[m[0][0]].data)
            if c == -1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'nppf':
                return self.padd(self.cst(1), dict(self.atoms[m[0][0]].data), -1)
        neg = self._lead_neg(p)
        q = self.pscale(p, -1) if neg else p
        a = self._unify('ncdf', q)
        if a is None:
            b = self._unify('ncdf', self.pscale(q, -1))
            if b is not None:
                a, neg = b, not neg
        if a is None:
            a = self.atom('ncdf', self.pkey(q), f'N[{self.pstr(q)}]')
        v = self.of_atom(a)
        return self.padd(self.cst(1), v, -1) if neg else v

    def _unify(self, kind, q):
        k = self.key.get((kind, self.pkey(q)))
        if k is not None:
            return k
        for a in self.atoms:
            if a.kind == kind and self.is_zero(self.padd(dict(a.data), q, -1)):
                return a
        return None

    def pppf(self, p):
        p = self.reduce(p)
        if p == self.cst(Fraction(1, 2)):
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'ncdf':
                return dict(self.atoms[m[0][0]].data)
        # 1 - N(x)
        q1 = self.padd(self.cst(1), p, -1)
        if len(q1) == 1:
            (m, c), = q1.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'ncdf':
                return self.pscale(dict(self.atoms[m[0][0]].data), -1)
        a = self._unify('nppf', p)
        if a is not None:
            return self.of_atom(a)
        a = self._unify('nppf', q1)
        if a is not None:
            return self.pscale(self.of_atom(a), -1)
        return self.of_atom(self.atom('nppf', self.pkey(p), f'Q[{self.pstr(p)}]'))

    def fn_atom(self, f, ps, n):
        for a in self.atoms:
            if a.kind == 'fn' and a.data[0] == f and len(a.data[1]) == len(ps) and \
                    all(self.is_zero(self.padd(dict(x), y, -1)) for x, y in zip(a.data[1], ps)):
                return a
        return self.atom('fn', (f, tuple(self.pkey(p) for p in ps)), f'{f}({",".join(self.pstr(p) for p in ps)})')

    # ---- printing ------------------------------------------------------------
    def mstr(self, m):
        return '*'.join(self.atoms[a].name + (f'^{e}' if e != 1 else '') for a, e in m) or '1'

    def pstr(self, p):
        s = ' + '.join(f'{v}*{self.mstr(m)}' for m, v in sorted(p.items())[:6]) or '0'
        return s if len(s) < 160 else s[:160] + '..'


_pf = {}


def factor(n):
    if n in _pf:
        return _pf[n]
    n0, r, d = n, [], 2
    while d * d <= n and d < 100000:
        k = 0
        while n % d == 0:
            n //= d
            k += 1
        if k:
            r.append((d, k))
        d += 1
    if n > 1:
        r.append((n, 1))
    _pf[n0] = r
    return r
