"""Interval facts about nodes under the current path condition."""
import math
from fractions import Fraction
from . import node as N
from .node import Node

INF = math.inf
FULL = (-INF, True, INF, True)


def _isect(a, b):
    lo, lop = (a[0], a[1]) if a[0] > b[0] else ((b[0], b[1]) if b[0] > a[0] else (a[0], a[1] or b[1]))
    hi, hop = (a[2], a[3]) if a[2] < b[2] else ((b[2], b[3]) if b[2] < a[2] else (a[2], a[3] or b[3]))
    return (lo, lop, hi, hop)


def _mulb(a, ao, b, bo):
    """bound product, 0*inf = 0"""
    if a == 0 or b == 0:
        # closed if a zero end is attained
        op = True
        if a == 0 and not ao:
            op = False
        if b == 0 and not bo:
            op = False
        return Fraction(0), op
    if a in (INF, -INF) or b in (INF, -INF):
        return (INF if (a > 0) == (b > 0) else -INF), True
    return a * b, ao or bo


class Facts:
    """Intervals for variables + literals of the path condition."""

    def __init__(self):
        self.dom = {}          # nid -> interval (declared or learnt)
        self.memo = {}
        self.nonzero = set()

    def copy(self):
        f = Facts()
        f.dom = dict(self.dom)
        f.nonzero = set(self.nonzero)
        return f

    def declare(self, node, lo=-INF, lo_open=True, hi=INF, hi_open=True):
        iv = (lo if lo == -INF else Fraction(lo), lo_open, hi if hi == INF else Fraction(hi), hi_open)
        self.dom[node.nid] = _isect(self.dom.get(node.nid, FULL), iv)
        self.memo.clear()

    def learn(self, lit):
        """add a literal (boolean node) that holds."""
        neg = False
        n = lit
        while n.op == 'not':
            neg = not neg
            n = n.args[0]
        if n.op == 'and' and not neg:
            for a in n.args:
                self.learn(a)
            return
        if n.op == 'lt':
            a, b = n.args
            if neg:      # b <= a
                a, b, op = b, a, False
            else:
                op = True
            # a < b or a <= b
            if a.op == 'const':
                self._tight(b, (a.val, op, INF, True))
            elif b.op == 'const':
                self._tight(a, (-INF, True, b.val, op))
            else:
                d = self._diffnode(b, a)
                self._tight(d, (Fraction(0), op, INF, True))
        elif n.op == 'eq':
            a, b = n.args
            if neg:
                if a.op == 'const' and a.val == 0:
                    self.nonzero.add(b.nid)
                elif b.op == 'const' and b.val == 0:
                    self.nonzero.add(a.nid)
            else:
                if a.op == 'const' and a.sort != 'B':
                    self._tight(b, (a.val, False, a.val, False))
                elif b.op == 'const' and b.sort != 'B':
                    self._tight(a, (b.val, False, b.val, False))
        self.memo.clear()

    def _diffnode(self, a, b):
        return N.sub(a, b)

    def _tight(self, n, iv, depth=0):
        if n.op == 'const':
            return
        self.dom[n.nid] = _isect(self.dom.get(n.nid, FULL), iv)
        if depth > 6:
            return
        if n.op == 'toreal':
            self._tight(n.args[0], iv, depth + 1)
        elif n.op == 'mul' and n.args[0].op == 'const':
            c = n.args[0].val
            lo, lop, hi, hop = iv
            if c > 0:
                self._tight(n.args[1], (lo / c if lo != -INF else lo, lop, hi / c if hi != INF else hi, hop), depth + 1)
            else:
                self._tight(n.args[1], (hi / c if hi != INF else -INF, hop, lo / c if lo != -INF else INF, lop), depth + 1)
        elif n.op == 'add' and (n.args[0].op == 'const' or n.args[1].op == 'const'):
            c, x = (n.args[0], n.args[1]) if n.args[0].op == 'const' else (n.args[1], n.args[0])
            lo, lop, hi, hop = iv
            self._tight(x, (lo - c.val if lo != -INF else lo, lop, hi - c.val if hi != INF else hi, hop), depth + 1)

    def iv(self, n):
        if not isinstance(n, Node):
            n = N.const(n)
        r = self.memo.get(n.nid)
        if r is not None:
            return r
        r = self._iv(n)
        d = self.dom.get(n.nid)
        if d is not None:
            r = _isect(r, d)
        self.memo[n.nid] = r
        return r

    def _iv(self, n):
        op = n.op
        if op == 'const':
            v = Fraction(int(n.val)) if n.sort == 'B' else n.val
            return (v, False, v, False)
        if op == 'add':
            a, b = self.iv(n.args[0]), self.iv(n.args[1])
            lo = a[0] + b[0]
            hi = a[2] + b[2]
            return (lo, a[1] or b[1] or lo == -INF, hi, a[3] or b[3] or hi == INF)
        if op == 'mul':
            x, y = n.args
            a, b = self.iv(x), self.iv(y)
            if x is y:
                return self._even(a)
            return self._mul(a, b)
        if op == 'div':
            a, b = self.iv(n.args[0]), self.iv(n.args[1])
            if b[0] > 0 or (b[0] == 0 and True and b[2] > 0 and b[0] >= 0):
                inv = (Fraction(0) if b[2] == INF else 1 / b[2], True if b[2] == INF else b[3], INF if b[0] == 0 else 1 / b[0], True if b[0] == 0 else b[1])
                return self._mul(a, inv)
            if b[2] < 0 or (b[2] == 0 and b[0] < 0):
                inv = (-INF if b[2] == 0 else 1 / b[2], True if b[2] == 0 else b[3], Fraction(0) if b[0] == -INF else 1 / b[0], True if b[0] == -INF else b[1])
                return self._mul(a, inv)
            return FULL
        if op == 'pow':
            a, e = self.iv(n.args[0]), n.val
            if e.denominator == 1 and e % 2 == 0:
                return self._even(a, int(e))
            if e.denominator == 1:
                return (a[0] ** int(e) if a[0] != -INF else -INF, a[1], a[2] ** int(e) if a[2] != INF else INF, a[3])
            if a[0] > 0 or (a[0] == 0 and a[1]):
                return (Fraction(0), True, INF, True)
            return (Fraction(0), False, INF, True)
        if op == 'toreal':
            return self.iv(n.args[0])
        if op == 'ite':
            a, b = self.iv(n.args[1]), self.iv(n.args[2])
            lo = min(a[0], b[0])
            hi = max(a[2], b[2])
            return (lo, all(x[1] for x in (a, b) if x[0] == lo), hi, all(x[3] for x in (a, b) if x[2] == hi))
        if op == 'fn':
            f = n.val
            if f == 'exp':
                a = self.iv(n.args[0])
                lo, lop, hi, hop = Fraction(0), True, INF, True
                if a[0] >= 0:
                    lo, lop = Fraction(1), a[1] or a[0] > 0
                if a[2] <= 0:
                    hi, hop = Fraction(1), a[3] or a[2] < 0
                return (lo, lop, hi, hop)
            if f == 'ncdf':
                a = self.iv(n.args[0])
                lo, lop, hi, hop = Fraction(0), True, Fraction(1), True
                if a[0] >= 0:
                    lo, lop = Fraction(1, 2), a[1] or a[0] > 0
                if a[2] <= 0:
                    hi, hop = Fraction(1, 2), a[3] or a[2] < 0
                return (lo, lop, hi, hop)
            if f == 'log':
                a = self.iv(n.args[0])
                if a[0] >= 1:
                    return (Fraction(0), a[1] or a[0] > 1, INF, True)
                if a[2] <= 1:
                    return (-INF, True, Fraction(0), a[3] or a[2] < 1)
                return FULL
            if f == 'pi':
                return (Fraction(314159, 100000), True, Fraction(314160, 100000), True)
            if f in ('sin', 'cos'):
                return (Fraction(-1), False, Fraction(1), False)
            return FULL
        if op in ('idiv',):
            a = self.iv(n.args[0])
            c = n.args[1].val
            return (Fraction(math.floor(a[0] / c)) if a[0] != -INF else -INF, False if a[0] != -INF else True,
                    Fraction(math.floor(a[2] / c)) if a[2] != INF else INF, a[2] == INF)
        if op == 'imod':
            return (Fraction(0), False, n.args[1].val - 1, False)
        if op == 'floor':
            a = self.iv(n.args[0])
            return (Fraction(math.floor(a[0])) if a[0] != -INF else -INF, a[0] == -INF,
                    Fraction(math.floor(a[2])) if a[2] != INF else INF, a[2] == INF)
        return FULL

    def _even(self, a, e=2):
        lo, lop, hi, hop = a
        hp = lambda v: v ** e if v not in (INF, -INF) else INF
        if lo >= 0:
            return (hp(lo), lop, hp(hi), hop)
        if hi <= 0:
            return (hp(hi), hop, hp(lo), lop)
        m, mo = (hp(hi), hop) if hp(hi) >= hp(lo) else (hp(lo), lop)
        return (Fraction(0), False, m, mo)

    def _mul(self, a, b):
        c = [_mulb(a[i], a[i + 1], b[j], b[j + 1]) for i in (0, 2) for j in (0, 2)]
        lo = min(x[0] for x in c)
        hi = max(x[0] for x in c)
        return (lo, all(x[1] for x in c if x[0] == lo), hi, all(x[1] for x in c if x[0] == hi))

    # ---- queries -----------------------------------------------------
    def positive(self, n):
        a = self.iv(n)
        return a[0] > 0 or (a[0] == 0 and (a[1] or n.nid in self.nonzero))

    def nonneg(self, n):
        return self.iv(n)[0] >= 0

    def negative(self, n):
        a = self.iv(n)
        return a[2] < 0 or (a[2] == 0 and (a[3] or n.nid in self.nonzero))

    def sign(self, n):
        if self.positive(n):
            return 1
        if self.negative(n):
            return -1
        a = self.iv(n)
        if a[0] == 0 and a[2] == 0:
            return 0
        return None

    def isnonzero(self, n):
        return n.nid in self.nonzero or self.sign(n) in (1, -1)

    def truth(self, b):
        """True/False/None for a boolean node by interval reasoning."""
        if b.op == 'const':
            return bool(b.val)
        if b.op == 'not':
            t = self.truth(b.args[0])
            return None if t is None else not t
        if b.op == 'and':
            ts = [self.truth(x) for x in b.args]
            if any(t is False for t in ts):
                return False
            return True if all(t is True for t in ts) else None
        if b.op in ('lt', 'eq'):
            x, y = b.args
            if x.op == 'const':
                a = (x.val, False, x.val, False)
                c = self.iv(y)
            else:
                a, c = self.iv(x), self.iv(y)
            if b.op == 'lt':
                if a[2] < c[0] or (a[2] == c[0] and (a[3] or c[1])):
                    return True
                if a[0] >= c[2]:
                    return False
                if x.op != 'const' and y.op != 'const':
                    d = self.iv(N.sub(y, x))
                    if d[0] > 0 or (d[0] == 0 and d[1]):
                        return True
                    if d[2] <= 0:
                        return False
                return None
            if a[2] < c[0] or c[2] < a[0]:
                return False
            if (a[2] == c[0] and (a[3] or c[1])) or (c[2] == a[0] and (c[3] or a[1])):
                return False
            if a[0] == a[2] == c[0] == c[2]:
                return True
            if x.op == 'const' and x.val == 0 and y.nid in self.nonzero:
                return False
            if y.op == 'const' and y.val == 0 and x.nid in self.nonzero:
                return False
            return None
        return None

    # ---- atom-level queries for Canon -----------------------------------------
    def atom_iv(self, canon, at):
        k = at.kind
        if k in ('var', 'ite', 'opaque'):
            return self.iv(at.data)
        if k == 'exp':
            a = self.poly_iv(canon, {at.data: Fraction(1)})
            lo, lop, hi, hop = Fraction(0), True, INF, True
            if a[0] >= 0:
                lo, lop = Fraction(1), a[1] or a[0] > 0
            if a[2] <= 0:
                hi, hop = Fraction(1), a[3] or a[2] < 0
            return (lo, lop, hi, hop)
        if k in ('prime', 'pi'):
            return (Fraction(0), True, INF, True)
        if k == 'ncdf':
            return (Fraction(0), True, Fraction(1), True)
        if k == 'base':
            d = self.dom.get(('poly', at.data))
            r = self.poly_iv(canon, dict(at.data))
            return _isect(r, d) if d else r
        if k == 'log':
            a = self.atom_iv(canon, canon.atoms[at.data])
            if a[0] >= 1:
                return (Fraction(0), a[1] or a[0] > 1, INF, True)
            if a[2] <= 1:
                return (-INF, True, Fraction(0), a[3] or a[2] < 1)
            return FULL
        return FULL

    def poly_iv(self, canon, p):
        lo, lop, hi, hop = Fraction(0), False, Fraction(0), False
        for m, c in p.items():
            t = (c, False, c, False)
            for a, e in m:
                t = self._mul(t, self._atom_pow(canon, canon.atoms[a], e))
            lo, lop = lo + t[0], lop or t[1]
            hi, hop = hi + t[2], hop or t[3]
        if lo < 0 < hi and 1 < len(p) < 60:
            memo = canon.__dict__.setdefault('shiftmemo', {})
            key = frozenset(p.items())
            r = memo.get(key)
            if r is None:
                memo[key] = 0
                r = memo[key] = self.shift_sign(canon, p)
            if r > 0:
                lo, lop = Fraction(0), r == 2
            elif r < 0:
                hi, hop = Fraction(0), r == -2
        return (lo, lop, hi, hop)

    def shift_sign(self, canon, p):
        """sign of a polynomial whose terms mix signs: measure every atom from its finite bound and see
        whether all coefficients agree.  2/1: > 0 / >= 0, -2/-1 likewise, 0: unknown"""
        atoms = sorted({a for m in p for a, _ in m})
        if len(atoms) > 8:
            return 0
        mins = {a: min([dict(m).get(a, Fraction(0)) for m in p]) for a in atoms}
        ivs = {}
        for a in atoms:
            at = canon.atoms[a]
            ivs[a] = self.atom_iv(canon, at)
            if mins[a] < 0 and not (ivs[a][0] > 0 or ivs[a][0] == 0 and ivs[a][1]):
                return 0
        q = {}
        for m, c in p.items():
            d = dict(m)
            for a in atoms:
                if mins[a] < 0:
                    d[a] = d.get(a, Fraction(0)) - mins[a]
            q[tuple(sorted((a, e) for a, e in d.items() if e))] = c
        strict = {}
        for a in atoms:
            lo, lop, hi, hop = ivs[a]
            if lo != -INF:
                base, sg, strict[a] = lo, 1, lop
            elif hi != INF:
                base, sg, strict[a] = hi, -1, hop
            else:
                base, sg, strict[a] = 0, 1, None
            if base == 0 and sg == 1:
                continue
            out = {}
            for m, c in q.items():
                d = dict(m)
                e = d.pop(a, 0)
                if e != int(e) or e > 6:
                    return 0
                e = int(e)
                for k in range(e + 1):
                    v = c * math.comb(e, k) * base ** (e - k) * sg ** k
                    if v:
                        dd = dict(d)
                        if k:
                            dd[a] = Fraction(k)
                        mm = tuple(sorted(dd.items()))
                        out[mm] = out.get(mm, 0) + v
            q = {m: c for m, c in out.items() if c}
            if len(q) > 300:
                return 0
        if not q:
            return 0
        sg = 1 if next(iter(q.values())) > 0 else -1
        st = False
        for m, c in q.items():
            if (c > 0) != (sg > 0):
                return 0
            s = True
            for a, e in m:
                if strict[a] is None:
                    if e != int(e) or e % 2:
                        return 0
                    s = False
                elif not strict[a]:
                    s = False
            st = st or s
        return sg * (2 if st else 1)

    def _atom_pow(self, canon, at, e):
        a = self.atom_iv(canon, at)
        if e == 1:
            return a
        if e.denominator == 1 and e > 0:
            if e % 2 == 0:
                return self._even(a, int(e))
            return (a[0] ** int(e) if a[0] != -INF else -INF, a[1], a[2] ** int(e) if a[2] != INF else INF, a[3])
        if a[0] > 0 or (a[0] == 0 and a[1]):
            return (Fraction(0), True, INF, True)
        if e > 0:
            return (Fraction(0), False, INF, True)
        if e.denominator == 1 and e % 2 == 0:
            return (Fraction(0), True, INF, True)
        if a[2] < 0:
            return (-INF, True, Fraction(0), True)
        return FULL

    def poly_positive(self, canon, at):
        a = self.atom_iv(canon, at)
        return a[0] > 0 or (a[0] == 0 and a[1])

    def atom_positive(self, canon, at):
        a = self.atom_iv(canon, at)
        return a[0] > 0 or (a[0] == 0 and a[1])

    def atom_negative(self, canon, at):
        a = self.atom_iv(canon, at)
        return a[2] < 0 or (a[2] == 0 and a[3])

    def atom_nonneg(self, canon, at):
        return self.atom_iv(canon, at)[0] >= 0
