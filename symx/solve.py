"""Translation of node assertions to z3 and the solver queries."""
import sys
import time
import math
from fractions import Fraction
try:
    import z3
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import z3
from . import node as N
from .node import Node, Unsupported

STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0.0}


def q(v):
    v = Fraction(v)
    return z3.RealVal(f'{v.numerator}/{v.denominator}')


class Query:
    """One solver query over boolean nodes, through the canonical form."""

    def __init__(self, canon, facts, lemmas=0):
        self.canon, self.facts, self.lemmas = canon, facts, lemmas
        self.bools = []         # (node, polarity)
        self.cmp = {}           # nid -> ('int',) | ('poly', p)
        self.extra = []         # list of (poly, rel) hard constraints
        self.atoms_seen = []
        self.atomset = set()
        self.den = {}
        self.ivars = {}
        self.eqgoals = []       # (p, q) polys asserted different
        self.memo = {}
        self.pending_lemmas = []

    # ---- pass 1: collect -------------------------------------------------
    def add(self, b):
        self._collect(b)
        self.bools.append(b)

    def add_ne_polys(self, p, r):
        c = self.canon
        p, r = self._clear_pair(p, r)
        self._poly_atoms(p)
        self._poly_atoms(r)
        self.eqgoals.append((p, r))

    def _clear_pair(self, p, r):
        c = self.canon
        lo = {}
        for m in list(p) + list(r):
            for a, e in m:
                if e < 0:
                    lo[a] = min(lo.get(a, 0), e)
        for a, e in list(lo.items()):
            if e.denominator != 1 or not c.apos(c.atoms[a]):
                k = -e
                k = Fraction(math.ceil(k))
                if not c.apos(c.atoms[a]) and k % 2:
                    k += 0
                lo[a] = -k
        mono = tuple(sorted((a, -e) for a, e in lo.items()))
        if mono:
            p = c.pmul(p, {mono: Fraction(1)})
            r = c.pmul(r, {mono: Fraction(1)})
        return p, r

    def _collect(self, b):
        if b.nid in self.memo:
            return
        self.memo[b.nid] = True
        if b.op in ('and', 'not'):
            for a in b.args:
                self._collect(a)
        elif b.op in ('lt', 'eq'):
            x, y = b.args
            if x.sort in 'I' and y.sort in 'I' and not _has_real(x) and not _has_real(y):
                self.cmp[b.nid] = ('int',)
                self._int_vars(x)
                self._int_vars(y)
            else:
                p = self.canon.padd(self.canon.poly(y), self.canon.poly(x), -1)
                p = self._norm(self.canon.reduce(p), b.op)
                self._poly_atoms(p)
                self.cmp[b.nid] = ('poly', p)
        elif b.op == 'var':
            pass
        elif b.op == 'ite':
            for a in b.args:
                self._collect(a)
        elif b.op == 'const':
            pass
        elif b.op == 'fn':
            pass
        else:
            raise Unsupported(f'boolean {b.op}')

    def _norm(self, p, op):
        """multiply by a positive monomial to clear negative exponents."""
        c = self.canon
        if not p:
            return p
        ex = {}
        for m in p:
            d = dict(m)
            for a in d:
                ex.setdefault(a, [])
        for a in ex:
            es = [dict(m).get(a, Fraction(0)) for m in p]
            lo = min(es)
            if c.apos(c.atoms[a]):
                if lo != 0:
                    ex[a] = -lo
                else:
                    ex[a] = 0
            elif lo < 0:
                k = Fraction(math.ceil(-lo))
                if op == 'lt' and k % 2:
                    k += 1
                ex[a] = k
            else:
                ex[a] = 0
        mono = tuple(sorted((a, Fraction(e)) for a, e in ex.items() if e))
        if mono:
            p = c.pmul(p, {mono: Fraction(1)})
        return p

    def _poly_atoms(self, p):
        for m in p:
            for a, e in m:
                self.den[a] = math.lcm(self.den.get(a, 1), e.denominator)
                if self.den[a] > 24 or abs(e * self.den[a]) > 96:
                    # roots are introduced as r**den == atom: large powers only exhaust the solver's memory
                    raise Unsupported('power with a large denominator')
                self._atom(a)

    def _atom(self, a):
        if a in self.atomset:
            return
        self.atomset.add(a)
        c = self.canon
        at = c.atoms[a]
        self.den.setdefault(a, 1)
        k = at.kind
        if k == 'base':
            p = dict(at.data)
            self._poly_atoms(p)
            q_ = c.padd(p, c.of_atom(at), -1)
            q_ = self._norm(q_, 'eq')
            self._poly_atoms(q_)
            self.extra.append((q_, 'eq0'))
        elif k == 'ite':
            n = at.data
            cond, x, y = n.args
            self._collect(cond)
            px = self._norm(c.padd(c.poly(x), c.of_atom(at), -1), 'eq')
            py = self._norm(c.padd(c.poly(y), c.of_atom(at), -1), 'eq')
            self._poly_atoms(px)
            self._poly_atoms(py)
            self.extra.append(((cond, px, py), 'ite'))
        elif k == 'opaque':
            n = at.data
            if n.op == 'floor':
                self._poly_atoms(self.canon.poly(n.args[0]))
            self._int_vars(n)
        elif k == 'var':
            self.ivars.setdefault(at.data.nid, at.data)
        elif k == 'log':
            self._atom(at.data)

    def _int_vars(self, n):
        st = [n]
        seen = set()
        while st:
            t = st.pop()
            if t.nid in seen:
                continue
            seen.add(t.nid)
            if t.op == 'var':
                self.ivars.setdefault(t.nid, t)
            elif t.op == 'ite':
                self._collect(t.args[0])
                st.extend(t.args[1:])
            elif t.op == 'floor':
                self._poly_atoms(self.canon.poly(t.args[0]))
            else:
                st.extend(t.args)

    def _lemma_polys(self):
        """polynomial arguments of exp/ncdf/log atoms for lemma generation"""
        c = self.canon
        out = []
        for a in sorted(self.atomset):
            at = c.atoms[a]
            if at.kind == 'exp':
                out.append((at, {at.data: Fraction(1)}))
            elif at.kind in ('ncdf', 'nppf'):
                out.append((at, dict(at.data)))
            elif at.kind == 'log':
                out.append((at, None))
        return out

    # ---- pass 2: emit ---------------------------------------------------------
    def var(self, n):
        v = n.val
        if n.sort == 'I':
            return z3.Int(v)
        if n.sort == 'B':
            return z3.Bool(v)
        return z3.Real(v)

    def root(self, a):
        """z3 term for atom^(1/den)"""
        at = self.canon.atoms[a]
        d = self.den[a]
        k = at.kind
        if d == 1:
            if k == 'var':
                v = self.var(at.data)
                return z3.ToReal(v) if at.data.sort == 'I' else v
            if k == 'prime':
                return q(at.data)
            if k == 'opaque':
                return z3.ToReal(self.iterm(at.data))
        return z3.Real(f'@{a}_{d}')

    def atom_constraints(self):
        c, f = self.canon, self.facts
        out = []
        for a in sorted(self.atomset):
            at = c.atoms[a]
            d = self.den[a]
            x = self.root(a)
            k = at.kind
            iv = f.atom_iv(c, at)
            if d != 1:
                out.append(x > 0 if c.apos(at) else x >= 0)
                full = x ** 1
                for _ in range(d - 1):
                    full = full * x
                if k == 'var':
                    v = self.var(at.data)
                    out.append(full == (z3.ToReal(v) if at.data.sort == 'I' else v))
                elif k == 'prime':
                    out.append(full == q(at.data))
                elif k == 'opaque':
                    out.append(full == z3.ToReal(self.iterm(at.data)))
            else:
                full = x
            if k == 'prime':
                continue
            if iv[0] != -N.math.inf:
                out.append(full > q(iv[0]) if iv[1] else full >= q(iv[0]))
            if iv[2] != N.math.inf:
                out.append(full < q(iv[2]) if iv[3] else full <= q(iv[2]))
            if k == 'pi':
                out.append(z3.And(full > q(Fraction(314159265, 10**8)), full < q(Fraction(314159266, 10**8))))
        # declared domains of every variable that occurs
        for n in self.ivars.values():
            if n.sort == 'B':
                continue
            iv = f.iv(n)
            v = self.var(n)
            if iv[0] != -N.math.inf:
                b = q(iv[0]) if n.sort == 'R' else int(math.ceil(iv[0]))
                out.append(v > b if iv[1] and n.sort == 'R' else v >= b)
            if iv[2] != N.math.inf:
                b = q(iv[2]) if n.sort == 'R' else int(math.floor(iv[2]))
                out.append(v < b if iv[3] and n.sort == 'R' else v <= b)
        for p, rel in self.extra:
            if rel == 'eq0':
                out.append(self.pz(p) == 0)
            elif rel == 'ite':
                cond, px, py = p
                cz = self.bz(cond)
                out.append(z3.And(z3.Implies(cz, self.pz(px) == 0), z3.Implies(z3.Not(cz), self.pz(py) == 0)))
        return out

    def lemma_constraints(self):
        c = self.canon
        out = []
        L = []
        for at, p in self._lemma_polys():
            if p is None:
                ia = at.data
                x = self._atom_full(ia)
                l = self._atom_full(at.i)
                out.append(z3.And(z3.Implies(x > 1, l > 0), z3.Implies(x < 1, l < 0), z3.Implies(x == 1, l == 0), l <= x - 1))
                continue
            try:
                self._poly_atoms_safe(p)
            except KeyError:
                continue
            num, den = self._ratio(p)
            if num is None:
                continue
            L.append((at, num, den))
        for at, num, den in L:
            y = self._atom_full(at.i)
            if at.kind == 'exp':
                # den > 0 : m = num/den
                out.append(z3.And(z3.Implies(num > 0, y > 1), z3.Implies(num < 0, y < 1), z3.Implies(num == 0, y == 1)))
                out.append(y * den >= den + num)
                out.append(y * (den - num) <= den)
            elif at.kind == 'ncdf':
                h = q(Fraction(1, 2))
                out.append(z3.And(z3.Implies(num > 0, y > h), z3.Implies(num < 0, y < h), z3.Implies(num == 0, y == h)))
            elif at.kind == 'nppf':
                h = q(Fraction(1, 2))
                out.append(z3.And(z3.Implies(num > h * den, y > 0), z3.Implies(num < h * den, y < 0), z3.Implies(num == h * den, y == 0)))
        for i in range(len(L)):
            for j in range(i):
                if L[i][0].kind == L[j][0].kind and len(L) < 14:
                    a, an, ad = L[i]
                    b, bn, bd = L[j]
                    x, y = self._atom_full(a.i), self._atom_full(b.i)
                    out.append(z3.And(z3.Implies(an * bd < bn * ad, x < y), z3.Implies(an * bd > bn * ad, x > y),
                                      z3.Implies(an * bd == bn * ad, x == y)))
        return out

    def _poly_atoms_safe(self, p):
        for m in p:
            for a, e in m:
                if a not in self.atomset or self.den[a] % e.denominator:
                    raise KeyError(a)

    def _ratio(self, p):
        c = self.canon
        lo = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    lo[a] = min(lo.get(a, 0), e)
        for a in lo:
            if not c.apos(c.atoms[a]):
                return None, None
        mono = tuple(sorted((a, -e) for a, e in lo.items()))
        num = c.pmul(p, {mono: Fraction(1)}) if mono else p
        try:
            return self.pz(num), self.pz({mono: Fraction(1)} if mono else c.cst(1))
        except (KeyError, Unsupported):
            return None, None

    def _atom_full(self, a):
        x = self.root(a)
        r = x
        for _ in range(self.den[a] - 1):
            r = r * x
        return r

    def pz(self, p):
        """z3 term of a polynomial without negative exponents."""
        ts = []
        for m, v in p.items():
            fs = []
            for a, e in m:
                k = e * self.den[a]
                if k.denominator != 1 or k < 0:
                    raise Unsupported('negative exponent left in a query')
                x = self.root(a)
                fs.extend([x] * int(k))
            if v != 1 or not fs:
                fs.insert(0, q(v))
            t = fs[0]
            for x in fs[1:]:
                t = t * x
            ts.append(t)
        if not ts:
            return q(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def iterm(self, n):
        st = getattr(self, '_im', None)
        if st is None:
            st = self._im = {}
        if n.nid in st:
            return st[n.nid]
        op = n.op
        if op == 'const':
            r = z3.IntVal(int(n.val))
        elif op == 'var':
            r = self.var(n)
        elif op == 'add':
            r = self.iterm(n.args[0]) + self.iterm(n.args[1])
        elif op == 'mul':
            r = self.iterm(n.args[0]) * self.iterm(n.args[1])
        elif op == 'idiv':
            r = self.iterm(n.args[0]) / self.iterm(n.args[1])
        elif op == 'imod':
            r = self.iterm(n.args[0]) % self.iterm(n.args[1])
        elif op == 'ite':
            r = z3.If(self.bz(n.args[0]), self.iterm(n.args[1]), self.iterm(n.args[2]))
        elif op == 'floor':
            r = z3.ToInt(self.pz(self.canon.poly(n.args[0])))
        else:
            raise Unsupported(f'integer term {op}')
        st[n.nid] = r
        return r

    def bz(self, b):
        st = getattr(self, '_bm', None)
        if st is None:
            st = self._bm = {}
        if b.nid in st:
            return st[b.nid]
        if b.op == 'const':
            r = z3.BoolVal(bool(b.val))
        elif b.op == 'var':
            r = z3.Bool(b.val)
        elif b.op == 'not':
            r = z3.Not(self.bz(b.args[0]))
        elif b.op == 'and':
            r = z3.And(*[self.bz(a) for a in b.args])
        elif b.op == 'fn':
            raise Unsupported('boolean function')
        else:
            k = self.cmp[b.nid]
            if k[0] == 'int':
                x, y = self.iterm(b.args[0]), self.iterm(b.args[1])
                r = x < y if b.op == 'lt' else x == y
            else:
                t = self.pz(k[1])
                r = t > 0 if b.op == 'lt' else t == 0
        st[b.nid] = r
        return r

    def solver(self, timeout):
        if self.lemmas:
            for at, p in self._lemma_polys():
                if p is not None:
                    self._poly_atoms(p)
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        s.set('random_seed', 1)
        for t in self.atom_constraints():
            s.add(t)
        if self.lemmas:
            for t in self.lemma_constraints():
                s.add(t)
        for b in self.bools:
            s.add(self.bz(b))
        for p, r in self.eqgoals:
            s.add(self.pz(p) != self.pz(r))
        return s

    def check(self, timeout=5.0):
        s = self.solver(timeout)
        return run(s), s


def run(s):
    t0 = time.time()
    r = s.check()
    STATS['time'] += time.time() - t0
    STATS['queries'] += 1
    STATS[str(r)] += 1
    return str(r)


_hr = {}


def _has_real(n):
    """does an int-sorted term contain real subterms (via floor)?"""
    if n.nid in _hr:
        return _hr[n.nid]
    if n.op == 'floor':
        r = False
    elif n.sort == 'R':
        r = True
    else:
        r = any(_has_real(a) for a in n.args if a.sort != 'B')
    _hr[n.nid] = r
    return r


def model_env(m, varnodes):
    """{name: Fraction/int/float} for the variables, from a z3 model."""
    env = {}
    for n in varnodes:
        v = z3.Int(n.val) if n.sort == 'I' else (z3.Bool(n.val) if n.sort == 'B' else z3.Real(n.val))
        x = m.eval(v, model_completion=True)
        if n.sort == 'I':
            env[n.val] = x.as_long()
        elif n.sort == 'B':
            env[n.val] = z3.is_true(x)
        elif z3.is_algebraic_value(x):
            x = x.approx(18)
            env[n.val] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        else:
            fr = Fraction(x.numerator_as_long(), x.denominator_as_long())
            try:
                env[n.val] = float(fr)
            except OverflowError:
                env[n.val] = math.inf if fr > 0 else -math.inf
    return env
