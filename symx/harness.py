"""Harness contexts (symbolic and concrete), the check driver, evidence."""
import contextlib
import inspect
import io
import json
import math
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings
import numpy as np
from fractions import Fraction
from . import node as N, solve
from .node import Node, Ctl, Unsupported, const
from .arr import SA, has_node, OBJ
from .explore import Explorer, PathAbort, Budget

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Skip(Exception):
    """concrete mode: inputs outside the harness's assumptions"""


def flat(x):
    """(shape, flat list) of any result value"""
    if hasattr(x, 'to_numpy') and not isinstance(x, np.ndarray):
        x = x.to_numpy()
    if isinstance(x, (list, tuple)):
        x = SA(list(x))
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'mM':
            return x.shape, [int(v) for v in x.astype('datetime64[D]' if x.dtype.kind == 'M' else 'timedelta64[D]').astype(int).ravel()]
        return x.shape, [np.ndarray.__getitem__(x, i) for i in np.ndindex(x.shape)]
    return (), [x]


class Ctx:
    sym = False
    def choice(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        for k in range(len(options) - 1):
            if bool(i == k):
                return options[k]
        return options[-1]

    def reals(self, name, n, **k):
        return self.vec([self.real(f'{name}{i}', **k) for i in range(n)])

    def pos(self, name, typ=(0.1, 2.0), **k):
        return self.real(name, lo=0, lo_open=True, typ=typ, **k)

    def eq(self, label, a, b, **k):
        sa, fa = flat(a)
        sb, fb = flat(b)
        if sa != sb and sa != () and sb != ():
            sa2 = tuple(d for d in sa if d != 1)
            sb2 = tuple(d for d in sb if d != 1)
            if k.get('shape', False) or sa2 != sb2:
                self.fail(label + '.shape', f'shape {sa} expected {sb}')
                return
        if len(fa) == 1 and len(fb) > 1:
            fa = fa * len(fb)
        if len(fb) == 1 and len(fa) > 1:
            fb = fb * len(fa)
        k.pop('shape', None)
        for i, (x, y) in enumerate(zip(fa, fb)):
            self.eq1(label if len(fa) == 1 else f'{label}[{i}]', x, y, **k)

    def shape(self, label, a, want):
        s = tuple(np.shape(a)) if not isinstance(a, Node) else ()
        if s != tuple(want):
            self.fail(label, f'shape {s} expected {tuple(want)}')
        else:
            self.note_trivial(label)

    def no_raise(self, label, f, *a, allow=(), **k):
        """result of f, or a failed obligation when it raises; None then"""
        try:
            return self.call(f, *a, **k)
        except Unsupported:
            raise
        except Skip:
            raise
        except Exception as e:
            if allow and isinstance(e, allow):
                raise
            self.fail(label + '.raises', f'{type(e).__name__}: {e}', exc=e)
            raise Stop()

    def raises(self, label, exc, f, *a, **k):
        try:
            r = self.call(f, *a, **k)
        except (Unsupported, Skip):
            raise
        except Exception as e:
            if isinstance(e, exc):
                self.note_trivial(label)
            else:
                self.fail(label, f'raised {type(e).__name__} instead of {exc}')
            return
        self.fail(label, f'no error raised')


class Stop(Exception):
    """end this path quietly (a failed obligation is already recorded)"""


class SymCtx(Ctx):
    sym = True

    def __init__(self, ex, run):
        self.ex, self.run = ex, run
        self.obs = []
        self.nlab = {}

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, typ=None):
        n = N.var(name, 'R')
        if name not in self.ex.vars:
            self.ex.facts.declare(n, -math.inf if lo is None else Fraction(repr(lo)) if isinstance(lo, float) else lo, lo_open or lo is None,
                                  math.inf if hi is None else Fraction(repr(hi)) if isinstance(hi, float) else hi, hi_open or hi is None)
            self.ex.vars[name] = (n, typ or (lo if lo is not None else -1.0, hi if hi is not None else 1.0))
        return n

    def int(self, name, lo, hi, typ=None):
        n = N.var(name, 'I')
        if name not in self.ex.vars:
            self.ex.facts.declare(n, lo, False, hi, False)
            self.ex.vars[name] = (n, typ or (lo, hi))
        return n

    def series(self, xs, index=None, name=None):
        import pandas as pd
        return pd.Series(list(xs), dtype=object, index=index, name=name)

    def vec(self, xs):
        return SA(list(xs))

    def assume(self, c):
        c = N._b(c) if isinstance(c, Node) else const(bool(c))
        if c.op == 'const':
            if not c.val:
                raise PathAbort('assume')
            return
        t = self.ex.facts.truth(c)
        if t is True:
            return
        if t is False:
            raise PathAbort('assume')
        if not self.run.replaying(self.ex) and self.ex.feasible(c) == 'unsat':
            raise PathAbort('assume')
        self.ex.take(c)
        self.ex.known[c.nid] = True

    def call(self, f, *a, **k):
        return f(*a, **k)

    def derivative(self, f, x, h=None, order=1):
        v = f(x)
        for _ in range(order):
            v = N.diff(v, x) if not isinstance(v, np.ndarray) else SA([N.diff(t, x) for t in v.ravel()])
        return v

    def hint(self, f):
        """f(env) may overwrite sampled inputs so that rare paths get witnesses; no effect on the encoding"""
        self.ex.hints.append(f)

    def note_trivial(self, label):
        self.run.note(label, 'trivial', 0.0)

    def fail(self, label, why, exc=None):
        if isinstance(exc, Unsupported):
            raise exc
        self.run.unproven(self.ex, label, why, None, None, None)

    def eq1(self, label, a, b, rtol=1e-7, atol=1e-9, **k):
        if not isinstance(a, Node) and not isinstance(b, Node) and not (N.is_num(a) and N.is_num(b)):
            ok = (a == b)
            if isinstance(ok, Node):
                return self.true(label, ok)
            (self.note_trivial(label) if ok else self.fail(label, f'{a!r} != {b!r}'))
            return
        if N.is_nonfinite(a) or N.is_nonfinite(b):
            ok = not isinstance(a, Node) and not isinstance(b, Node) and (float(a) == float(b) or (math.isnan(float(a)) and math.isnan(float(b))))
            (self.note_trivial(label) if ok else self.fail(label, f'{a} != {b}'))
            return
        a, b = const(a), const(b)
        if a.sort == 'B' or b.sort == 'B':
            return self.true(label, N.eq(a, b))
        self.nlab[label] = self.nlab.get(label, 0) + 1
        self.obs.append((f'{label}#{self.nlab[label]}', a))
        if a.op == 'const' and b.op == 'const' and 'R' in (a.sort, b.sort):
            # both concrete: read as binary64 arithmetic with rounding
            x, y = float(a.val), float(b.val)
            goal = const(abs(x - y) <= atol + rtol * max(abs(x), abs(y)))
        else:
            goal = N.eq(a, b)
        self.run.obligation(self.ex, label, goal, (a, b), rtol, atol)

    def true(self, label, c, **k):
        if isinstance(c, np.ndarray):
            for i, e in enumerate(c.flat):
                self.true(f'{label}[{i}]', e)
            return
        c = N._b(c) if isinstance(c, Node) else const(bool(c))
        self.run.obligation(self.ex, label, c, None, 0, k.get('tol', 0))

    def le(self, label, a, b, tol=1e-9):
        self.true(label, N.le(const(a), const(b)) if not (N.is_nonfinite(a) or N.is_nonfinite(b)) else N.le(a, b), tol=tol)

    def lt(self, label, a, b, tol=0):
        self.true(label, N.lt(a, b), tol=tol)


class ConcCtx(Ctx):
    """Replays the same harness on the unpatched code with plain numbers."""

    def __init__(self, env, tolmul=1.0):
        self.env = env
        self.failures = []
        self.obs = {}
        self.nlab = {}
        self.n = 0
        self.tolmul = tolmul

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, typ=None):
        v = float(self.env[name]) if name in self.env else (float(lo) + float(hi)) / 2 if lo is not None and hi is not None else float(typ[0])
        if not math.isfinite(v) or (lo is not None and (v < lo or (lo_open and v == lo))) or (hi is not None and (v > hi or (hi_open and v == hi))):
            raise Skip(name)
        return v

    def int(self, name, lo, hi, typ=None):
        v = int(self.env[name]) if name in self.env else lo
        if v < lo or v > hi:
            raise Skip(name)
        return v

    def series(self, xs, index=None, name=None):
        import pandas as pd
        return pd.Series([float(x) for x in xs], index=index, name=name)

    def vec(self, xs):
        return np.array(list(xs), dtype=float)

    def assume(self, c):
        if not bool(c):
            raise Skip('assume')

    def call(self, f, *a, **k):
        return f(*a, **k)

    def derivative(self, f, x, h=None, order=1):
        h = h or max(abs(x), 1e-2) * (1e-3 if order == 1 else 4e-3)
        if order == 1:
            d = lambda e: (np.asarray(f(x + e)) - np.asarray(f(x - e))) / (2 * e)
        else:
            d = lambda e: (np.asarray(f(x + e)) - 2 * np.asarray(f(x)) + np.asarray(f(x - e))) / (e * e)
        a, b = d(h), d(h / 2)
        r = (4 * b - a) / 3
        return r.item() if r.shape == () else r

    def hint(self, f):
        pass

    def note_trivial(self, label):
        self.n += 1

    def fail(self, label, why, exc=None):
        self.n += 1
        self.failures.append((label, why))

    def eq1(self, label, a, b, rtol=1e-7, atol=1e-9, fd=False, **k):
        self.n += 1
        if not (N.is_num(a) and N.is_num(b)):
            if isinstance(a, Fraction) or isinstance(b, Fraction):
                a, b = float(a), float(b)
            elif not (a == b):
                self.failures.append((label, f'{a!r} != {b!r}'))
                return
            else:
                return
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
            if bool(a) != bool(b):
                self.failures.append((label, f'{a!r} != {b!r}'))
            return
        a, b = float(a), float(b)
        self.nlab[label] = self.nlab.get(label, 0) + 1
        self.obs[f'{label}#{self.nlab[label]}'] = a
        if math.isnan(a) and math.isnan(b) or a == b:
            return
        if fd:
            rtol, atol = max(rtol, 2e-4), max(atol, 2e-5)
        if not abs(a - b) <= self.tolmul * (atol + rtol * max(abs(a), abs(b))):
            self.failures.append((label, f'{a!r} != {b!r}'))

    def true(self, label, c, **k):
        self.n += 1
        if isinstance(c, np.ndarray):
            c = bool(np.all(c))
        if not bool(c):
            self.failures.append((label, 'false'))

    def le(self, label, a, b, tol=1e-9):
        self.n += 1
        if not float(a) <= float(b) + tol * max(1, abs(float(b))):
            self.failures.append((label, f'not {a!r} <= {b!r}'))

    def lt(self, label, a, b, tol=0):
        self.n += 1
        if not float(a) < float(b):
            self.failures.append((label, f'not {a!r} < {b!r}'))


def quiet(f, *a):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
            return f(*a)


def replay(fn, env, tolmul=1.0):
    """Run the harness on the real code; returns (status, failures, ctx)."""
    c = ConcCtx(env, tolmul)
    try:
        quiet(fn, c)
    except Skip as e:
        return 'skip', [], c
    except Stop:
        pass
    except Exception as e:
        c.failures.append(('exception', f'{type(e).__name__}: {e}'))
    return ('fail' if c.failures else 'ok'), c.failures, c


def far(env, ranges):
    """some real input lies far outside its typical range"""
    for k, (n, typ) in (ranges or {}).items():
        if n.sort == 'R' and k in env:
            lo, hi = map(float, typ)
            w = max(hi - lo, abs(hi), 1e-9)
            if not lo - 10 * w <= env[k] <= hi + 10 * w:
                return True
    return False


class HarnessRun:
    """Exploration of one harness."""

    def __init__(self, pid, name, fn, opts, patch):
        self.pid, self.name, self.fn, self.opts, self.patch = pid, name, fn, opts, patch
        self.rng = random.Random((int(os.environ.get('VERIF_SEED', '1')), name).__repr__())
        self.res = dict(harness=name, paths=0, decisions=0, obligations=0, trivial=0, discharged=0, validated=0, mismatches=[],
                        violations=[], unknown=[], labels={}, aborted=0, functions=[], samples=[], infeasible=0, exc=[])
        self.cache = {}
        self.open = []
        self.funcs = set()

    def replaying(self, ex):
        return len(ex.trace) < len(ex.prefix)

    def note(self, label, how, t):
        self.res['obligations'] += 1
        self.res['trivial'] += 1
        self.res['discharged'] += 1

    def obligation(self, ex, label, goal, eqpair, rtol, atol):
        self.res['obligations'] += 1
        lab = label.split('[')[0]
        self.res['labels'][lab] = self.res['labels'].get(lab, 0) + 1
        if goal.op == 'const' and goal.val:
            # both sides are the same term after construction; confirm through the solver all the same
            solve.run(_trivial(goal))
            self.res['trivial'] += 1
            self.res['discharged'] += 1
            return
        key = (goal.nid, tuple(sorted(l.nid for l in ex.pc)))
        if key in self.cache:
            r = self.cache[key]
        else:
            if time.time() > self.opts['deadline']:
                raise Budget('time limit')
            r = ex.prove(goal, eqpair, refute=lambda: self.refute(ex, label, goal, eqpair))
            self.cache[key] = r
        if r[0] == 'refuted':
            return
        if r[0] == 'unsat':
            self.res['discharged'] += 1
            return
        self.unproven(ex, label, f'solver: {r[0]}', goal, eqpair, r[1])

    def unproven(self, ex, label, why, goal, eqpair, model):
        if goal is None:
            self.res['obligations'] += 1
        lab = label.split('[')[0]
        n = sum(1 for o in self.open if o == lab)
        self.open.append(lab)
        if n >= self.opts.get('max_open', 6):
            if not any(v['label'].split('[')[0] == lab for v in self.res['violations']):
                self.res['unknown'].append(dict(label=label, why=why + ' (repeated)'))
            return
        env = self.find_cex(ex, goal, eqpair, model)
        if env is not None:
            self.violation(label, why, env)
        else:
            self.res['unknown'].append(dict(label=label, why=why, goal=N.show(goal, 6)[:400] if goal is not None else None,
                                            pc=[N.show(l, 5)[:160] for l in ex.pc][:12]))

    def refute(self, ex, label, goal, eqpair):
        """a few inputs of this path and near the conditions in the goal, before an expensive case split"""
        if ex.soft or sum(1 for v in self.res['violations'] if v['label'].split('[')[0] == label.split('[')[0]) >= 2:
            return False
        saved, Ctl.explorer = Ctl.explorer, None
        try:
            viol = self.violates(ex, goal, eqpair)
            atoms = ex.atoms(goal)
            t0 = time.time()
            hit = 0
            for k in range(60):
                if time.time() - t0 > 3 or hit >= 4:
                    break
                env = ex.sample_env(self.rng)
                if k % 4:
                    env = ex.nudge(env, atoms, self.rng)
                if ex.holds_pc(env) and viol(env):
                    hit += 1
                    r = self.try_env(env, ex.vars)
                    if r:
                        self.violation(label, 'counterexample of the encoded goal', r)
                        return True
            return False
        finally:
            Ctl.explorer = saved

    def violates(self, ex, goal, eqpair):
        def viol(env):
            if goal is None or ex.soft:
                return True
            memo = {}
            try:
                if eqpair is not None:
                    a, b = N.evalf(eqpair[0], env, memo), N.evalf(eqpair[1], env, memo)
                    return not abs(a - b) <= 1e-9 + 1e-7 * max(abs(a), abs(b))
                return not N.evalf(goal, env, memo)
            except Exception:
                return False
        return viol

    def violation(self, label, why, found):
        env, fails = found
        self.res['violations'].append(dict(label=label, why=why, env=env, failures=[list(map(str, f)) for f in fails[:5]]))
        if self.opts.get('partial'):
            self.opts['partial'](self.res)

    def try_env(self, env, ranges=()):
        with self.patch.suspended():
            st, fails, c = replay(self.fn, env)
        if st == 'fail':
            if far(env, ranges) and any(f[0] == 'exception' or 'nan' in f[1] or 'inf' in f[1] for f in map(lambda t: (str(t[0]), str(t[1])), fails)):
                return None        # floating-point range, not the property
            return env, fails
        return None

    def find_cex(self, ex, goal, eqpair, model):
        rng = self.rng
        tried = 0
        saved, Ctl.explorer = Ctl.explorer, None
        try:
            cands = 0
            t0 = time.time()
            ng = [] if goal is None else [N.lnot(goal)]
            viol = self.violates(ex, goal, eqpair)
            atoms = ex.atoms(goal)
            limit = self.opts.get('replays', 25)
            for k in range(self.opts.get('samples', 600)):
                if time.time() - t0 > self.opts.get('cex_time', 40) or cands >= limit:
                    break
                env = ex.sample_env(rng)
                if k % 3 == 2:
                    env = ex.nudge(env, atoms, rng)
                if ex.holds_pc(env) and viol(env):
                    cands += 1
                    r = self.try_env(env, ex.vars)
                    if r:
                        return r
            if model is not None and ex.holds_pc(model) and viol(model):
                r = self.try_env(model, ex.vars)
                if r:
                    return r
            for k in range(10):
                if time.time() - t0 > 2 * self.opts.get('cex_time', 40):
                    break
                env = ex.solver_env(rng, extra=ng if k % 2 == 0 else ())
                if env is None:
                    if k >= 1 and not ng:
                        break
                    continue
                if ex.holds_pc(env) and viol(env):
                    r = self.try_env(env, ex.vars)
                    if r:
                        return r
            return None
        finally:
            Ctl.explorer = saved

    def run(self):
        work = [[]]
        t0 = time.time()
        res = self.res
        while work:
            if res['paths'] >= self.opts.get('max_paths', 3000):
                res['aborted'] += 1
                res['unknown'].append(dict(label='bound', why='path limit'))
                break
            prefix = work.pop()
            ex = Explorer(prefix, self.opts)
            ctx = SymCtx(ex, self)
            Ctl.explorer = ex
            status = 'ok'
            try:
                with self.patch.active():
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        with contextlib.redirect_stdout(io.StringIO()):
                            self.fn(ctx)
            except PathAbort as e:
                status = 'infeasible'
            except Stop:
                status = 'stopped'
            except Budget as e:
                status = 'budget'
                res['aborted'] += 1
                res['unknown'].append(dict(label='bound', why=str(e)))
            except Unsupported as e:
                status = 'unsupported'
                Ctl.explorer = None
                r = self.find_cex(ex, None, None, None)
                if r:
                    self.violation('unsupported-path', str(e), r)
                else:
                    res['unknown'].append(dict(label='unsupported', why=str(e), where=_where(e)))
            except Exception as e:
                status = 'exception'
                Ctl.explorer = None
                r = self.find_cex(ex, None, None, None)
                if r:
                    self.violation('exception', f'{type(e).__name__}: {e}', r)
                else:
                    res['unknown'].append(dict(label='exception', why=f'{type(e).__name__}: {e}', where=_where(e),
                                               pc=[N.show(l, 5)[:160] for l in ex.pc][:12]))
            finally:
                Ctl.explorer = None
            work.extend(ex.alts)
            res['decisions'] += len(ex.trace)
            if status == 'infeasible':
                res['infeasible'] += 1
                continue
            res['paths'] += 1
            if status in ('ok', 'stopped') and res['validated'] + len(res['mismatches']) < self.opts.get('max_validate', 40):
                self.validate(ex, ctx)
            if len(res['violations']) >= self.opts.get('stop_after', 4):
                break
            if time.time() > self.opts['deadline']:
                if work:
                    res['unknown'].append(dict(label='bound', why='time limit'))
                    res['aborted'] += 1
                break
        res['time'] = time.time() - t0
        return res

    def validate(self, ex, ctx):
        """witness of the path: run the real code and compare with the encoding."""
        env = ex.witness(self.rng)
        if env is None:
            self.res['no_witness'] = self.res.get('no_witness', 0) + 1
            return
        st, fails, c = replay(self.fn, env)
        if st == 'skip':
            return
        if st == 'fail':
            # the real code breaks the property on an input of this path
            if not any(v['env'] == env for v in self.res['violations']):
                self.violation('witness:' + str(fails[0][0]), 'path witness', (env, fails))
            return
        memo = {}
        bad = None
        for lab, nd in ctx.obs[:200]:
            if lab in c.obs:
                try:
                    v = N.evalf(nd, env, memo)
                except Exception:
                    continue
                w = c.obs[lab]
                if not (abs(v - w) <= 1e-6 * max(1, abs(w)) or (v != v and w != w)):
                    bad = (lab, v, w)
                    break
        if bad:
            self.res['mismatches'].append(dict(env=env, label=bad[0], encoded=repr(bad[1]), real=repr(bad[2])))
        else:
            self.res['validated'] += 1
            if len(self.res['samples']) < 2:
                self.res['samples'].append(dict(env={k: v for k, v in list(env.items())[:12]}, path=[N.show(l, 4)[:100] for l in ex.pc][:6],
                                                observed={l: c.obs[l] for l in list(c.obs)[:4]}))


_tg = {}


def _trivial(goal):
    s = solve.z3.Solver()
    s.add(solve.z3.Not(solve.z3.BoolVal(bool(goal.val))))
    return s


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return [f'{os.path.basename(f.filename)}:{f.lineno} {f.name}' for f in tb if 'symx' not in f.filename][-5:]


# ---------------------------------------------------------------------------
def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('kind', 'finding') == 'finding':
                    out.append(d)
    return out


def _worker(args):
    pid, name, fn, opts, patchf = args
    solve.STATS.update(queries=0, unsat=0, sat=0, unknown=0, time=0.0)
    import resource
    sys.setrecursionlimit(20000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        patch = patchf()
        hr = HarnessRun(pid, name, fn, dict(opts), patch)
        from . import shim
        res = hr.run()
        res['functions'] = sorted(getattr(patch, 'called', lambda: [])())
    except BaseException as e:
        res = dict(harness=name, paths=0, decisions=0, obligations=0, trivial=0, discharged=0, validated=0, mismatches=[], violations=[],
                   unknown=[dict(label='crash', why=f'{type(e).__name__}: {e}', where=traceback.format_exc()[-1500:])], labels={},
                   aborted=1, functions=[], samples=[], infeasible=0, time=0)
    res['stats'] = dict(solve.STATS)
    return res


def match_finding(f, name, v):
    import re
    if f.get('harness') and not re.fullmatch(f['harness'], name):
        return False
    labs = [x[0] for x in v['failures']]
    # every reported failure must be the listed one: a different violation is still reported
    return all(re.fullmatch(f['label'], l) and (not f.get('match') or re.search(f['match'], x[1])) for l, x in zip(labs, v['failures']))


def main(pid, harnesses, patchf, bounds, assumptions=(), level='model_checking', budget=None, procs=8, files=()):
    """harnesses: list of (name, fn) or (name, fn, opts). Returns the exit code."""
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if '--replay' in sys.argv:
        return do_replay(pid, harnesses, sys.argv[sys.argv.index('--replay') + 1])
    budget = budget or (600 if tier == 'quick' else 3000)
    if tier != 'quick':
        budget = max(budget, 2400)
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    jobs = []
    for h in harnesses:
        name, fn = h[0], h[1]
        if only and only not in name:
            continue
        opts = dict(h[2]) if len(h) > 2 else {}
        opts['deadline'] = t0 + budget
        jobs.append((pid, name, fn, opts, patchf))
    # vacuity baseline: the repository's code is importable and unpatched here
    ctxm = mp.get_context('fork')
    results = []
    if procs == 1 or '--serial' in sys.argv:
        results = [_worker(j) for j in jobs]
    else:
        results = run_pool(ctxm, jobs, procs, t0 + budget + 60)
    return report(pid, tier, results, bounds, assumptions, level, t0, harnesses, files, only)


def _child(conn, job):
    try:
        job[3]['partial'] = lambda res: conn.send(dict(res, partial=True))
        conn.send(_worker(job))
    except BaseException as e:
        try:
            conn.send(dict(harness=job[1], paths=0, decisions=0, obligations=0, trivial=0, discharged=0, validated=0, mismatches=[], violations=[],
                           unknown=[dict(label='crash', why=repr(e))], labels={}, aborted=1, functions=[], samples=[], infeasible=0, time=0,
                           stats=dict(queries=0, unsat=0, sat=0, unknown=0, time=0)))
        except BaseException:
            pass
    conn.close()
    os._exit(0)


def run_pool(ctxm, jobs, procs, hard):
    """one process per harness, at most `procs` at a time, killed after `hard`."""
    pend = list(enumerate(jobs))
    live = {}
    out = {}
    part = {}
    kf = known_findings(jobs[0][0]) if jobs else []
    while pend or live:
        while pend and len(live) < procs:
            i, j = pend.pop(0)
            a, b = ctxm.Pipe(False)
            pr = ctxm.Process(target=_child, args=(b, j))
            pr.start()
            b.close()
            live[i] = (pr, a, j)
        for i in list(live):
            pr, a, j = live[i]
            done = False
            try:
                if a.poll(0.02):
                    m = a.recv()
                    if m.pop('partial', False):
                        # a violation is known already: the other harnesses get one more minute
                        part[i] = m
                        if not any(match_finding(f, j[1], v) for v in m['violations'] for f in kf):
                            hard = min(hard, time.time() + 60)
                    else:
                        out[i] = m
                        done = True
            except EOFError:
                done = True
            if not done and not pr.is_alive() and not a.poll(0):
                done = True
            if not done and time.time() > hard:
                pr.kill()
                done = True
            if done:
                pr.join(5)
                if pr.is_alive():
                    pr.kill()
                del live[i]
                if i not in out and i in part:
                    out[i] = dict(part[i], functions=[], time=0, stats=dict(queries=0, unsat=0, sat=0, unknown=0, time=0))
                elif i not in out:
                    out[i] = dict(harness=j[1], paths=0, decisions=0, obligations=0, trivial=0, discharged=0, validated=0, mismatches=[],
                                  violations=[], unknown=[dict(label='crash', why='worker ended without a result')], labels={}, aborted=1,
                                  functions=[], samples=[], infeasible=0, time=0, stats=dict(queries=0, unsat=0, sat=0, unknown=0, time=0))
        if live and len(live) >= procs or not pend:
            time.sleep(0.02)
    return [out[i] for i in sorted(out)]


def report(pid, tier, results, bounds, assumptions, level, t0, harnesses, files, only):
    tot = lambda k: sum(r.get(k, 0) for r in results)
    st = {k: sum(r['stats'][k] for r in results) for k in ('queries', 'unsat', 'sat', 'unknown', 'time')}
    kf = known_findings(pid)
    viol, known, unknown = [], {}, []
    for r in results:
        for v in r['violations']:
            hit = next((f for f in kf if match_finding(f, r['harness'], v)), None)
            if hit:
                known[hit['id']] = hit
            else:
                viol.append((r['harness'], v))
        # undecided obligations that a listed finding covers stay with the finding
        for u in r['unknown']:
            hit = next((f for f in kf if f.get('harness') and __import__('re').fullmatch(f['harness'], r['harness'])
                        and __import__('re').fullmatch(f['label'], u['label'])), None)
            if hit is None:
                unknown.append((r['harness'], u))
        if r['paths'] == 0 or r['obligations'] == 0:
            unknown.append((r['harness'], dict(label='vacuous', why='no path or no obligation')))
        elif r['validated'] == 0 and not r['violations']:
            unknown.append((r['harness'], dict(label='vacuous', why='no path witness was reproduced by the real code')))
    mism = [(r['harness'], m) for r in results for m in r['mismatches']]
    code = 0
    for f in known.values():
        print(f"KNOWN-FINDING: property={pid} {f['id']}: {f['what']}")
    if viol:
        code = 1
        name, v = viol[0]
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{pid}.json')
        with open(path, 'w') as fh:
            json.dump(dict(property=pid, harness=name, label=v['label'], why=v['why'], inputs=v['env'], failures=v['failures'],
                           rerun=f'bash /verif/check.sh {pid} --replay {path}', others=[dict(harness=a, **b) for a, b in viol[1:20]]), fh, indent=1, default=str)
        print(f'VIOLATION property={pid} replay={path}')
        for name, v in viol[:6]:
            print('  ', name, v['label'], v['why'], v['failures'][:2], {k: v['env'][k] for k in list(v['env'])[:12]})
    elif not tot('discharged') or (mism and not tot('validated')) or (unknown and os.environ.get('SYMX_STRICT')):
        code = 2
    for name, u in unknown[:12]:
        print('UNDECIDED', name, json.dumps(u, default=str)[:1500])
    for name, m in mism[:4]:
        print('MISMATCH', name, json.dumps(m, default=str)[:600])
    samples = []
    for r in results:
        for s in r['samples'][:1]:
            if len(samples) < 6:
                samples.append(dict(harness=r['harness'], **s))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level,
              coverage=dict(states=tot('paths'), transitions=tot('decisions'), traces_validated_against_impl=tot('validated'),
                            samples=samples or [dict(note='none')], obligations=tot('obligations'), discharged=tot('discharged'),
                            settled_syntactically=tot('trivial'), infeasible_paths=tot('infeasible'),
                            solver_queries=st['queries'], solver_unsat=st['unsat'], solver_sat=st['sat'], solver_unknown=st['unknown'],
                            solver_seconds=round(st['time'], 2), harnesses={r['harness']: dict(paths=r['paths'], obligations=r['obligations'], labels=r['labels'], seconds=round(r.get('time', 0), 2)) for r in results},
                            functions_encoded=sorted({f for r in results for f in r['functions']}), bounds=bounds,
                            undecided=[dict(harness=a, **{k: str(x)[:300] for k, x in b.items()}) for a, b in unknown[:20]],
                            encoding_mismatches=len(mism), known_findings=sorted(known), rule='states are feasible paths of the real code through the harness; each obligation is one solver verdict over all values on the path'),
              assumptions=list(assumptions), violations=len(viol), wall_s=round(time.time() - t0, 2))
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
    print(f'{pid}: harnesses={len(results)} paths={tot("paths")} obligations={tot("obligations")} discharged={tot("discharged")} '
          f'validated={tot("validated")} queries={st["queries"]} solver={st["time"]:.1f}s wall={time.time()-t0:.1f}s exit={code}')
    if '-v' in sys.argv:
        for r in results:
            print('   ', r['harness'], {k: r.get(k) for k in ('paths', 'obligations', 'discharged', 'trivial', 'validated', 'no_witness', 'infeasible', 'time')}, r['labels'])
    return code


def do_replay(pid, harnesses, path):
    d = json.load(open(path))
    fn = next(h[1] for h in harnesses if h[0] == d['harness'])
    st, fails, c = replay(fn, d['inputs'])
    print(st, *fails, sep='\n  ')
    if st == 'fail':
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    return 0
