"""Path exploration by re-execution, obligations, counterexample search."""
import math
import os
import random
import sys
import time
import traceback
import numpy as np
from fractions import Fraction
from . import node as N
from .node import Node, Ctl, Unsupported, const
from .arr import SA, has_node
from .facts import Facts
from .poly import Canon
from . import solve
from .solve import Query, z3, model_env


class PathAbort(BaseException):
    """Path is infeasible (assume failed) or budget exhausted."""


class Budget(BaseException):
    pass


class Explorer:
    lazy_div = False

    def __init__(self, prefix, opts):
        self.prefix = prefix
        self.opts = opts
        self.trace = []          # decisions (bool or int values)
        self.alts = []           # new prefixes to explore
        self.pc = []             # literals
        self.facts = Facts()
        self.known = {}
        self.vars = {}           # name -> (node, typ range)
        self._canon = None
        self.forced_unknown = 0
        self.soft = set()
        self.derived = []
        self.hints = []
        self.ndec = 0

    # -- facts used by node.py ----------------------------------------
    def known_nonzero(self, n): return self.facts.isnonzero(n) or self.poly_sign(n) in (2, -2)
    def known_positive(self, n): return self.facts.positive(n) or self.poly_sign(n) == 2
    def known_nonneg(self, n): return self.facts.nonneg(n) or self.poly_sign(n) > 0

    def poly_sign(self, n):
        """2: > 0, 1: >= 0, -2, -1, 0: unknown; by interval reasoning on the canonical form"""
        if n.op in ('const', 'var') or n.sort == 'B':
            return 0
        memo = self.__dict__.setdefault('psign', {})
        key = (n.nid, len(self.pc))
        if key in memo:
            return memo[key]
        r = 0
        try:
            c = self.canon()
            iv = self.facts.poly_iv(c, c.reduce(c.poly(n)))
            r = 2 if iv[0] > 0 or iv[0] == 0 and iv[1] else 1 if iv[0] == 0 else -2 if iv[2] < 0 or iv[2] == 0 and iv[3] else -1 if iv[2] == 0 else 0
        except (Unsupported, RecursionError):
            pass
        memo[key] = r
        if r in (2, -2) and Ctl.explorer is self:
            self.facts.learn(N.lt(const(0), n) if r == 2 else N.lt(n, const(0)))
        return r

    def interval_query(self, goal):
        s = z3.Solver()
        seen = {}

        def side(n):
            if n.op == 'const':
                return solve.q(Fraction(n.val))
            if n.nid not in seen:
                v = seen[n.nid] = z3.Real(f'iv{n.nid}')
                lo, lop, hi, hop = self.facts.iv(n)
                if lo != -math.inf:
                    s.add(v > solve.q(lo) if lop else v >= solve.q(lo))
                if hi != math.inf:
                    s.add(v < solve.q(hi) if hop else v <= solve.q(hi))
                if n.nid in self.facts.nonzero:
                    s.add(v != 0)
            return seen[n.nid]

        def form(b):
            if b.op == 'const':
                return z3.BoolVal(bool(b.val))
            if b.op == 'not':
                return z3.Not(form(b.args[0]))
            if b.op == 'and':
                return z3.And(*[form(x) for x in b.args])
            if b.op == 'lt' and b.args[0].op != 'const' and b.args[1].op != 'const':
                return side(N.sub(b.args[1], b.args[0])) > 0
            if b.op in ('lt', 'eq'):
                x, y = side(b.args[0]), side(b.args[1])
                return x < y if b.op == 'lt' else x == y
            return z3.Bool(f'b{b.nid}')
        s.add(z3.Not(form(goal)))
        return s

    def log_sign(self, a):
        """opt-in: settle whether the argument of a logarithm exceeds one, which its sign depends on"""
        if not self.opts.get('log_sign') or self.facts.truth(N.lt(const(1), a)) is not None:
            return
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i][0]
        else:
            v = 1 if self.feasible(N.le(a, 1), 5) == 'unsat' else -1 if self.feasible(N.le(1, a), 5) == 'unsat' else 0
        self.trace.append((v, True))
        if v:
            self.facts.learn(N.lt(const(1), a) if v > 0 else N.lt(a, const(1)))

    def poly_truth(self, b):
        if b.op not in ('lt', 'eq') or b.args[0].sort == 'B':
            return None
        d = N.sub(b.args[1], b.args[0])
        s = self.poly_sign(d) if isinstance(d, Node) else 0
        if b.op == 'lt':
            return True if s == 2 else False if s < 0 else None
        return False if s in (2, -2) else None

    def canon(self):
        if self._canon is None:
            self._canon = Canon(self.facts)
        return self._canon

    # -- relevance -----------------------------------------------------------
    def relevant(self, nodes):
        want = set()
        for n in nodes:
            want |= vars_of(n)
        lits = list(self.pc)
        chosen = []
        changed = True
        rest = lits
        while changed:
            changed = False
            nxt = []
            for l in rest:
                v = vars_of(l)
                if v & want:
                    chosen.append(l)
                    if not v <= want:
                        want |= v
                        changed = True
                else:
                    nxt.append(l)
            rest = nxt
        return chosen

    def feasible(self, extra, timeout=None):
        """sat / unsat / unknown for pc and extra"""
        timeout = timeout or self.opts.get('feas_timeout', 1.5)
        key = (extra.nid, len(self.pc), id(self))
        try:
            qy = Query(self.canon(), self.facts)
            qy.add(extra)
            rel = self.relevant([extra])
            for l in rel:
                qy.add(l)
            r, s = qy.check(timeout)
            if r == 'unknown' or r == 'sat' and self.opts.get('feas_lemmas'):
                qy = Query(self.canon(), self.facts, lemmas=1)
                qy.add(extra)
                for l in rel:
                    qy.add(l)
                r2, s = qy.check(timeout)
                if r2 != 'unknown':
                    r = r2
            return r
        except Unsupported:
            return 'unknown'

    # -- decisions --------------------------------------------------------------
    def decide(self, b):
        neg = False
        core = b
        while core.op == 'not':
            neg = not neg
            core = core.args[0]
        v = self._decide(core)
        return (not v) if neg else v

    def _decide(self, b):
        if b.nid in self.known:
            return self.known[b.nid]
        t = self.facts.truth(b)
        if t is not None:
            self.known[b.nid] = t
            return t
        if b.op == 'and':
            r = all(self.decide(a) for a in b.args)
            self.known[b.nid] = r
            return r
        t = self.poly_truth(b)
        if t is not None:
            self.known[b.nid] = t
            return t
        i = len(self.trace)
        self.ndec += 1
        if self.ndec > self.opts.get('max_decisions', 4000):
            raise Budget('decision limit')
        if i < len(self.prefix):
            v, forced = self.prefix[i]
        else:
            if time.time() > self.opts['deadline']:
                raise Budget('time limit')
            rt = self.feasible(b)
            rf = self.feasible(N.lnot(b)) if rt != 'unsat' else 'sat?'
            forced = False
            if rt == 'unsat':
                v, forced = False, True
            elif rf == 'unsat':
                v, forced = True, True
            else:
                if 'unknown' in (rt, rf):
                    self.forced_unknown += 1
                v = True
                self.alts.append(self.trace + [(False, False)])
        self.trace.append((v, forced))
        self.take(b if v else N.lnot(b), forced)
        self.known[b.nid] = v
        return v

    def take(self, lit, forced=False):
        if not forced:
            self.pc.append(lit)
        self.facts.learn(lit)
        self._canon = None

    def concretise_int(self, n):
        iv = self.facts.iv(n)
        tried = 0
        while True:
            iv = self.facts.iv(n)
            if iv[0] == iv[2]:
                return int(iv[0])
            i = len(self.trace)
            if i < len(self.prefix) and isinstance(self.prefix[i][0], tuple):
                (kind, v, yes), forced = self.prefix[i]
            else:
                if time.time() > self.opts['deadline']:
                    raise Budget('time limit')
                v = self._some_value(n)
                if v is None:
                    raise PathAbort('infeasible')
                yes, forced = True, False
                if self.feasible(N.ne(n, v)) == 'unsat':
                    forced = True
                else:
                    self.alts.append(self.trace + [(('c', v, False), False)])
            self.trace.append((('c', v, yes), forced))
            if yes:
                self.take(N.eq(n, v), forced)
                return v
            self.take(N.ne(n, v), forced)
            tried += 1
            if tried > self.opts.get('max_concretise', 64):
                raise Budget('concretisation limit')

    def _some_value(self, n):
        qy = Query(self.canon(), self.facts)
        qy._int_vars(n)
        t = N.var('@conc', 'I')
        qy.add(N.eq(t, n))
        for l in self.relevant([n]):
            qy.add(l)
        r, s = qy.check(10)
        if r == 'unsat':
            return None
        if r == 'unknown':
            raise Unsupported('cannot concretise an integer')
        return s.model().eval(z3.Int('@conc'), model_completion=True).as_long()

    # -- obligations --------------------------------------------------------------
    def prove(self, goal, eqpair=None, depth=0, refute=None):
        """'unsat' when pc => goal is established."""
        if depth == 0:
            # quick attempt with the conditional terms as atoms, then case split on their conditions
            r = self._prove(goal, eqpair, quick=has_ite(goal))
            if r[0] == 'unsat' or not has_ite(goal):
                return r
            if refute is not None and refute():
                return 'refuted', None
            self._nsplit = 0
        conds = ite_conds(goal)
        if not conds:
            return self._prove(goal, eqpair)
        for c in conds:
            if self.facts.truth(c) is not None:
                break
        else:
            c = conds[0]
        self._nsplit += 1
        if self._nsplit > self.opts.get('max_splits', 400) or time.time() > self.opts['deadline']:
            return 'unknown', None
        saved = (self.facts, self._canon, list(self.pc), dict(self.known))
        try:
            for v in (True, False):
                lit = c if v else N.lnot(c)
                self.facts, self._canon, self.pc = saved[0].copy(), None, list(saved[2])
                self.known = dict(saved[3])
                t = self.facts.truth(lit)
                if t is False:
                    continue
                if t is None:
                    if self.feasible(lit) == 'unsat':
                        continue
                    self.take(lit)
                    self.known[c.nid] = v
                m = {c: const(v)}
                memo = {}
                Ctl.explorer, prev = self, Ctl.explorer
                try:
                    g = N.subst(goal, m, memo)
                    e = None if eqpair is None else (N.subst(eqpair[0], m, memo), N.subst(eqpair[1], m, memo))
                finally:
                    Ctl.explorer = prev
                if e is not None:
                    if e[0] is e[1]:
                        continue
                    g = N.eq(const(e[0]), const(e[1]))
                r = self.prove(g, e, depth + 1)
                if r[0] != 'unsat':
                    if self.pc and len(self.pc) > len(saved[2]):
                        self.cex_extra = self.pc[len(saved[2]):]
                    return r
            return 'unsat', None
        finally:
            self.facts, self._canon, self.pc, self.known = saved

    def _prove(self, goal, eqpair=None, quick=False):
        if goal.op == 'const':
            return ('unsat' if goal.val else 'sat'), None
        t = self.facts.truth(goal)
        if t is True and eqpair is None:
            # interval reasoning settles it; the solver confirms on the interval abstraction
            if solve.run(self.interval_query(goal)) == 'unsat':
                return 'unsat', None
        tmo = self.opts.get('prove_timeout', 20)
        last = 'unknown'
        if eqpair is not None:
            c = Canon(self.facts)
            try:
                p, r = c.poly(eqpair[0]), c.poly(eqpair[1])
                d = c.reduce(c.padd(p, r, -1))
                if c.is_zero(d):
                    ps = c.expand_many([p, r])
                    qy = Query(c, self.facts)
                    qy.add_ne_polys(*ps)
                    x, s = qy.check(tmo)
                    if x == 'unsat':
                        return x, None
                elif self.by_equality(c, d):
                    return 'unsat', None
            except Unsupported as e:
                last = 'unsupported: ' + str(e)
        if quick and eqpair is not None:
            return last, None
        ng = N.lnot(goal)
        sat_model = None
        if quick:
            tmo = min(tmo, 3)
        for lem, pc in ((0, False), (0, True), (1, True)):
            if pc and not self.pc and lem == 0:
                continue
            try:
                qy = Query(Canon(self.facts), self.facts, lemmas=lem)
                qy.add(ng)
                if pc:
                    for l in self.relevant([goal]) if lem == 0 else self.pc:
                        qy.add(l)
                x, s = qy.check(tmo if (pc or not self.pc) else min(tmo, 5))
            except Unsupported as e:
                last = 'unsupported: ' + str(e)
                continue
            if x == 'unsat':
                return x, None
            if x == 'sat':
                last = 'sat'
                try:
                    sat_model = model_env(s.model(), [v[0] for v in self.vars.values()])
                except Exception:
                    pass
            elif last != 'sat':
                last = 'unknown'
        return last, sat_model

    def by_equality(self, c, d):
        """d is a polynomial multiple of an equality on the path (the solver confirms the identity)"""
        D = None
        for l in self.pc:
            if l.op != 'eq' or l.args[0].sort == 'B' or l.args[1].sort == 'B':
                continue
            D = c.expand(d) if D is None else D
            Q = c.expand(c.padd(c.poly(l.args[0]), c.poly(l.args[1]), -1))
            if not Q or len(Q) > 60 or len(D) > 400:
                continue
            D, Q = c.clear(D), c.clear(Q)
            k = c.divide(D, Q)
            if k is None:
                continue
            kQ = c.pmul(k, Q)
            if not c.padd(D, kQ, -1):
                kQ = D      # equal up to decimal rounding of constants, as in is_zero
            qy = Query(c, self.facts)
            qy.add_ne_polys(D, kQ)
            if qy.check(self.opts.get('prove_timeout', 20))[0] == 'unsat':
                return True
        return False

    # -- witnesses ------------------------------------------------------------------
    def holds_pc(self, env, lits=None):
        memo = {}
        if any(isinstance(v, float) and v != v for v in env.values()):
            return False
        for l in (self.pc if lits is None else lits):
            if l.nid in self.soft:
                continue
            try:
                if not N.evalf(l, env, memo):
                    return False
            except Exception:
                return False
        return True

    def sample_env(self, rng, spread=1.0):
        env = {}
        for name, (n, typ) in self.vars.items():
            iv = self.facts.iv(n)
            if iv[0] == iv[2]:
                env[name] = int(iv[0]) if n.sort == 'I' else float(iv[0])
                continue
            lo, hi = typ
            if iv[0] != -math.inf:
                lo = max(lo, iv[0])
            if iv[2] != math.inf:
                hi = min(hi, iv[2])
            if lo > hi:
                lo, hi = (iv[0], iv[0]) if iv[0] != -math.inf else (iv[2], iv[2])
                if n.sort == 'R':
                    if iv[0] != -math.inf and iv[2] != math.inf:
                        lo, hi = iv[0], iv[2]
            if n.sort == 'I':
                env[name] = rng.randint(int(math.ceil(lo)), int(math.floor(hi)))
            else:
                r = rng.random()
                if r < 0.1 and not (iv[0] == lo and iv[1]):
                    env[name] = float(lo)
                else:
                    x = round(float(lo) + (float(hi) - float(lo)) * rng.uniform(0.02, 0.98), rng.choice([2, 4, 6, 9]))
                    env[name] = x
        for name, (n, typ) in self.vars.items():
            iv = self.facts.iv(n)
            x = env[name]
            if n.sort == 'R' and (x < iv[0] or x > iv[2] or (x == iv[0] and iv[1]) or (x == iv[2] and iv[3])):
                env[name] = float((Fraction(iv[0]) + Fraction(iv[2])) / 2) if iv[0] != -math.inf and iv[2] != math.inf else x
        for f in self.hints:
            if rng.random() < 0.7:
                try:
                    f(env, rng)
                except Exception:
                    pass
        return self.derive(env)

    def atoms(self, goal):
        """comparisons that decide cases of the goal or of the path"""
        out = []
        seen = set()
        for top in ([goal] if goal is not None else []) + self.pc[-12:]:
            for t in walk(top):
                if t.op in ('lt', 'eq') and t.nid not in seen and t.args[0].sort in 'RI' and vars_of(t):
                    seen.add(t.nid)
                    out.append(t)
                    if len(out) >= 60:
                        return out
        return out

    def nudge(self, env, atoms, rng):
        """moves an input close to where a comparison changes its value, on either side"""
        if not atoms:
            return env
        byid = {n.nid: (name, n, typ) for name, (n, typ) in self.vars.items()}
        for _ in range(rng.choice((1, 1, 2, 3))):
            t = rng.choice(atoms)
            vs = [v for v in vars_of(t) if v in byid and byid[v][1].sort == 'R']
            if not vs:
                continue
            name, n, typ = byid[rng.choice(sorted(vs))]
            iv = self.facts.iv(n)
            lo, hi = float(typ[0]), float(typ[1])
            w = hi - lo
            lo, hi = lo - (w if rng.random() < 0.5 else 0), hi + (w if rng.random() < 0.5 else 0)
            lo, hi = max(lo, float(iv[0])), min(hi, float(iv[2]))
            if float(iv[0]) >= 0 and rng.random() < 0.5:
                lo = max(float(iv[0]), min(lo, hi) * 1e-4)
            if not lo < hi:
                continue

            def g(x):
                e = dict(env)
                e[name] = x
                return float(N.evalf(t.args[0], e, {})) - float(N.evalf(t.args[1], e, {}))
            try:
                xs = [lo + (hi - lo) * i / 16 for i in range(17)]
                if lo > 0 and hi / lo > 50:
                    xs = [lo * (hi / lo) ** (i / 16) for i in range(17)]
                ys = [(x, g(x)) for x in xs]
                br = [(a, b) for a, b in zip(ys, ys[1:]) if (a[1] < 0) != (b[1] < 0)]
                if not br:
                    continue
                (a, fa), (b, fb) = rng.choice(br)
                for _ in range(30):
                    m = (a + b) / 2
                    if (g(m) < 0) == (fa < 0):
                        a = m
                    else:
                        b = m
                d = (hi - lo) * rng.choice((0, 1e-3, 1e-2, 0.1, 0.3)) * rng.choice((-1, 1))
                x = (a + b) / 2 + d
                if d and iv[0] <= x <= iv[2]:
                    env[name] = x
                elif t.op == 'eq':
                    env[name] = x - d
                else:
                    env[name] = rng.choice((a, b))
            except Exception:
                continue
        return self.derive(env)

    def derive(self, env):
        for name, f in self.derived:
            try:
                env[name] = f(env)
            except Exception:
                env[name] = math.nan
        return env

    def solver_env(self, *a, **k):
        """in a child process: z3 does not always keep to its time limit"""
        import pickle
        import select
        import signal
        for x in list(a) + list(k.values()):
            if isinstance(x, random.Random):
                x.random()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    out = self._solver_env(*a, **k)
                except Exception:
                    out = None
                with os.fdopen(w, 'wb') as f:
                    pickle.dump((out, dict(solve.STATS)), f)
            finally:
                os._exit(0)
        os.close(w)
        data, t1 = b'', time.time() + 12
        with os.fdopen(r, 'rb', buffering=0) as f:
            while time.time() < t1:
                if not select.select([f], [], [], max(0.01, t1 - time.time()))[0]:
                    break
                x = f.read(65536)
                if not x:
                    break
                data += x
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        try:
            out, st = pickle.loads(data)
        except Exception:
            return None
        solve.STATS.update(st)
        return out

    def _solver_env(self, rng, extra=(), tries=1, timeout=2.0, fix=True):
        """model of pc (+extra), nudged towards typical values."""
        try:
            qy = Query(self.canon(), self.facts)
            for l in self.pc:
                qy.add(l)
            for l in extra:
                qy.add(l)
            for n, _ in self.vars.values():
                qy.ivars.setdefault(n.nid, n)
            s = qy.solver(timeout)
        except Unsupported:
            return None
        if solve.run(s) != 'sat':
            return None
        m = s.model()
        if fix:
            dn = {d[0] for d in self.derived}
            names = [v for v in self.vars if v not in dn]
            rng.shuffle(names)
            target = self.sample_env(rng)
            t0 = time.time()
            for nm in names:
                if not math.isfinite(target[nm]):
                    continue
                if time.time() - t0 > 6:
                    break
                n = self.vars[nm][0]
                v = z3.Int(nm) if n.sort == 'I' else z3.Real(nm)
                s.push()
                val = target[nm]
                if n.sort == 'I':
                    s.add(v == int(val))
                else:
                    s.add(v == solve.q(Fraction(repr(float(val)))))
                if solve.run(s) == 'sat':
                    m = s.model()
                else:
                    s.pop()
                    if n.sort == 'R':
                        lo, hi = self.vars[nm][1]
                        s.push()
                        s.add(v >= solve.q(Fraction(repr(float(lo)))), v <= solve.q(Fraction(repr(float(hi)))))
                        if solve.run(s) == 'sat':
                            m = s.model()
                        else:
                            s.pop()
        return self.derive(model_env(m, [v[0] for v in self.vars.values()]))

    def witness(self, rng, n=200):
        for _ in range(n if len(self.pc) else 1):
            e = self.sample_env(rng)
            if self.holds_pc(e):
                return e
        for _ in range(self.opts.get('solver_witness', 3)):
            e = self.solver_env(rng)
            if e is not None and self.holds_pc(e):
                return e
        return None


_hi = {}


def has_ite(n):
    return bool(ite_conds(n, True))


def ite_conds(n, first=False):
    """conditions of the conditional terms in n whose own conditions are free of conditionals"""
    seen = set()
    out = []
    stack = [n]
    while stack:
        t = stack.pop()
        if t.nid in seen or _hi.get(t.nid) is False:
            continue
        seen.add(t.nid)
        if t.op == 'ite' and t.sort == 'R':
            c = t.args[0]
            if not any(a.op == 'ite' and a.sort == 'R' for a in walk(c)):
                out.append(c)
                if first:
                    return out
        stack.extend(t.args)
    if not out and first:
        for i in seen:
            _hi[i] = False
    return out


def walk(n):
    seen = set()
    stack = [n]
    while stack:
        t = stack.pop()
        if t.nid in seen:
            continue
        seen.add(t.nid)
        yield t
        stack.extend(t.args)


_vo = {}


def vars_of(n):
    r = _vo.get(n.nid)
    if r is not None:
        return r
    stack = [n]
    while stack:
        t = stack[-1]
        if t.nid in _vo:
            stack.pop()
            continue
        pend = [a for a in t.args if a.nid not in _vo]
        if pend:
            stack.extend(pend)
            continue
        if t.op == 'var':
            _vo[t.nid] = frozenset([t.nid])
        elif not t.args:
            _vo[t.nid] = frozenset()
        elif len(t.args) == 1:
            _vo[t.nid] = _vo[t.args[0].nid]
        else:
            s = _vo[t.args[0].nid]
            for a in t.args[1:]:
                o = _vo[a.nid]
                if not o <= s:
                    s = s | o
            _vo[t.nid] = s
        stack.pop()
    return _vo[n.nid]
