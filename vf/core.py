"""Harness contexts: symbolic exploration (all paths, solver-decided checks) and concrete replay."""
from __future__ import annotations

import hashlib
import json
import os
import subprocess
import sys
import time
import traceback
from fractions import Fraction

CTX = None
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class PathEnd(BaseException):
    """the current path is infeasible"""


class Violated(BaseException):

    def __init__(self, label, detail=''):
        super().__init__(label)
        self.label, self.detail = label, detail


class NotReproduced(BaseException):
    pass


class Expected(Exception):
    pass


# ----------------------------------------------------------------------------------------------- symbolic
class SymCtx:
    symbolic = True

    def __init__(self, prefix, run):
        from vf import sym
        self.sym = sym
        self.prefix = prefix
        self.trail = []
        self.alts = []
        self.pc = []
        self.decided = {}
        self.choices = {}
        self.vars = {}
        self.run = run
        self.qp_calls = []
        self.min_calls = []
        self.qp_handler = None
        self.min_handler = None
        self.nfresh = 0
        self.notes = []
        sym.POOL.defined = []
        sym.POOL.defined_keys = set()
        sym.POOL.domains = []

    # -- inputs
    def real(self, name, lo=-10, hi=10):
        e = self.sym.var(name, lo, hi)
        self.vars[name] = (lo, hi)
        return e

    def fresh(self, stem, lo=None, hi=None):
        self.nfresh += 1
        return self.real(f'{stem}!{self.nfresh}', lo, hi)

    def vec(self, name, n, lo=-10, hi=10):
        from vf import npsym
        los = lo if isinstance(lo, (list, tuple)) else [lo] * n
        his = hi if isinstance(hi, (list, tuple)) else [hi] * n
        o = npsym.jaxsym.obj((n, ))
        for i in range(n):
            o[i] = self.real(f'{name}{i}', los[i], his[i])
        return npsym.wrap(o)

    def jvec(self, name, n, lo=-10, hi=10):
        from vf import jaxsym
        return jaxsym.tracer_of(self.vec(name, n, lo, hi))

    def jreal(self, name, lo=-10, hi=10):
        """a symbolic stand-in for a python/jnp float handed to jax code"""
        from vf import jaxsym
        return jaxsym.tracer_of(self.real(name, lo, hi))

    def flag(self, name):
        return bool(self.choice(name, 2))

    def boolvar(self, name):
        return self.sym.b_var(name)

    def choice(self, name, n):
        """fork over n alternatives (int) or over the items of a list"""
        items = None
        if not isinstance(n, int):
            items, n = list(n), len(n)
        i = len(self.trail)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.alts.append(self.trail + [k])
        self.trail.append(v)
        self.choices[name] = v
        return items[v] if items is not None else v

    def decide(self, b):
        sym = self.sym
        neg = b.op == 'not'
        key = b.args.key if neg else b.key
        if key in self.decided:
            return self.decided[key] != neg
        i = len(self.trail)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            t = self.feasible([b])
            f = self.feasible([sym.b_not(b)]) if t else True
            if t and f:
                v = True
                self.alts.append(self.trail + [False])
            else:
                v = t
        self.trail.append(v)
        self.decided[key] = v != neg
        self.pc.append(b if v else sym.b_not(b))
        self.run.stats['forks'] += 1
        if len(self.trail) > 400:
            raise sym.Unsupported('path too long')
        return v

    def _base(self):
        return list(self.pc) + list(self.sym.POOL.defined)

    def feasible(self, extra):
        from vf import solve
        saved = (list(self.sym.POOL.defined), set(self.sym.POOL.defined_keys))
        try:
            r, _ = solve.check_sat(solve.flatten(self._base() + extra), True, 3000)
            if r == 'unsat':
                return False
            if not solve.is_linear(self._base() + extra):
                r, _ = solve.check_sat(solve.flatten(self._base() + extra), False, self.run.fork_ms)
                if r == 'unsat':
                    return False
        finally:
            self.sym.POOL.defined, self.sym.POOL.defined_keys = saved
        return True

    def assume(self, b):
        b = self.sym.b_lift(b)
        if b.op == 'const':
            if not b.args:
                raise PathEnd()
            return
        self.pc.append(b)
        if not self.feasible([]):
            raise PathEnd()

    # -- checks
    def check(self, b, label, soft_replay=False, hint=None):
        """hint: a condition implying b that may be cheaper to decide"""
        from vf import solve
        sym = self.sym
        b = sym.b_lift(b)
        if hint is not None and sym.b_lift(hint).op == 'const' and sym.b_lift(hint).args:
            b = sym.b_lift(hint)
        st = self.run.stats
        st['checks'] += 1
        lab = self.run.labels.setdefault(label, {'checked': 0, 'unsat': 0, 'trivial': 0, 'reached': False, 'slices_only': 0})
        lab['checked'] += 1
        saved = (list(sym.POOL.defined), set(sym.POOL.defined_keys))
        try:
            base = self._base()
            if not lab['reached']:
                r = solve.satisfiable(base, budget_s=10, seed=self.run.seed)
                if r.status == 'sat':
                    lab['reached'] = True
                    if len(self.run.samples) < 6:
                        self.run.samples.append({'label': label, 'witness': {k: float(v) for k, v in sorted(r.model.reals.items())[:12]},
                                                 'choices': dict(self.choices)})
                elif r.status == 'unsat':
                    raise PathEnd()
            if b.op == 'const' and b.args:
                lab['trivial'] += 1
                lab['unsat'] += 1
                return
            if hint is not None and solve.satisfiable(base + [sym.b_not(sym.b_lift(hint))], budget_s=4, seed=self.run.seed).status == 'unsat':
                lab['unsat'] += 1
                return
            neg = base + [sym.b_not(b)]
            r = solve.satisfiable(neg, budget_s=self.run.budget_s, seed=self.run.seed)
            if r.status == 'unsat':
                lab['unsat'] += 1
                return
            if r.status == 'unknown':
                lab['slices_only'] += 1
                self.search(label, None, neg)
                self.run.inconclusive.append(label)
                return
            self.report(label, r.model, neg)
        finally:
            sym.POOL.defined, sym.POOL.defined_keys = saved

    def numbers(self, fn, label):
        """fn() takes no root of a negative number where everything evaluated so far is a number; a caller compares the value
        afterwards, which is what the replay of a counterexample fails on"""
        sym = self.sym
        before = list(sym.POOL.defined)
        n = len(sym.POOL.domains)
        out = fn()
        new = sym.POOL.domains[n:]
        if new:
            after, keys = sym.POOL.defined, sym.POOL.defined_keys
            for d in new:
                sym.POOL.defined, sym.POOL.defined_keys = list(before), {b.key for b in before}
                try:
                    self.check(d, label)
                finally:
                    sym.POOL.defined, sym.POOL.defined_keys = after, keys
        return out

    def close(self, a, b, label, tol=1e-6):
        """a == b within tol (arrays elementwise)"""
        from vf import npsym
        sym = self.sym
        x, y = npsym._to_obj(a), npsym._to_obj(b)
        if x.shape != y.shape:
            self.check(sym.b_const(False), label + f' (shape {x.shape} vs {y.shape})')
            return
        goals = []
        for u, v in zip(x.reshape(-1), y.reshape(-1)):
            if isinstance(u, float) or isinstance(v, float):
                goals.append(sym.b_const(isinstance(u, float) and isinstance(v, float) and (u == v or (u != u and v != v))))
                continue
            if isinstance(u, sym.B) or isinstance(v, sym.B):
                goals.append(sym.b_iff(u, v))
                continue
            d = u - v
            lo, hi = d.iv
            t = sym.snap(tol)
            goals.append(sym.b_and(sym.cmp0(t - d, 'ge'), sym.cmp0(t + d, 'ge')))
        for g in goals or [sym.b_const(True)]:
            self.check(g, label)

    def iff(self, a, b, label):
        self.check(self.sym.b_iff(self.sym.b_lift(a), self.sym.b_lift(b)), label)

    def fail(self, label):
        self.check(self.sym.b_const(False), label)

    # -- reporting
    def report(self, label, model, asserts):
        """replay the counterexample on the unmodified code; only a reproduced one is a violation"""
        from vf import solve
        run, sym = self.run, self.sym
        models = [model]
        for attempt in range(3):
            if attempt == 1:
                m = solve.rounded_model(asserts, models[0])
                if m is None:
                    continue
                models.append(m)
            elif attempt == 2:
                r = solve.satisfiable(asserts + self._spread(models), budget_s=8, seed=run.seed + 7)
                if r.status != 'sat':
                    break
                m2 = solve.rounded_model(asserts, r.model)
                models.append(m2 or r.model)
            res = run.replay(self, label, [models[-1]])
            if res is not None:
                run.violations.append(res)
                raise Violated(label)
        if any(n.startswith('round') and '!' in n for n in models[0].reals):
            # values off the rounding grid
            off = dict(models[0].reals)
            for i, n in enumerate(sorted(self.vars)):
                lo, hi = self.vars[n]
                if '!' not in n and lo is not None and hi is not None and n in off:
                    v = off[n] + Fraction(377 + 71 * i, 10**6) * (1 if off[n] * 2 < sym.snap(lo) + sym.snap(hi) else -1)
                    off[n] = min(max(v, sym.snap(lo)), sym.snap(hi))
            res = run.replay(self, label, [solve.Model(off, models[0].bools)])
            if res is not None:
                run.violations.append(res)
                raise Violated(label)
        self.search(label, models[0], asserts)
        run.unreproduced.append({'label': label, 'model': {k: str(v) for k, v in models[0].reals.items()}, 'choices': dict(self.choices)})

    def search(self, label, model, asserts):
        """the solver has no model that replays: look for another input that violates the same assertion"""
        from vf import solve
        run = self.run
        run.stats['searches'] = run.stats.get('searches', 0) + 1
        if run.stats['searches'] > 12:
            return
        ms = solve.witnesses(solve.flatten(asserts), run.seed + run.stats['searches'], model)
        if not ms:
            return
        res = run.replay(self, label, ms)
        if res is not None:
            run.violations.append(res)
            raise Violated(label)

    def _spread(self, models):
        """push away from the previous model"""
        sym = self.sym
        out = []
        for name, (lo, hi) in self.vars.items():
            if lo is None or hi is None or '!' in name:
                continue
            v = models[0].reals.get(name)
            if v is None:
                continue
            mid = (sym.snap(lo) + sym.snap(hi)) / 2
            x = sym.var(name, lo, hi)
            d = (sym.snap(hi) - sym.snap(lo)) / 8
            out.append(sym.b_or(sym.cmp0(x - (v + d), 'ge'), sym.cmp0((v - d) - x, 'ge')))
        return [sym.b_or(*out)] if out else []

    # -- helpers usable in both modes
    def note(self, s):
        if s not in self.run.notes:
            self.run.notes.append(s)


# ----------------------------------------------------------------------------------------------- concrete
class ConcCtx:
    symbolic = False

    def __init__(self, model, choices, tol_scale=0.5):
        self.model = model
        self.choices = choices
        self.tol_scale = tol_scale
        self.qp_calls = []
        self.min_calls = []
        self.qp_handler = None
        self.min_handler = None
        self.nfresh = 0
        self.log = []

    def real(self, name, lo=-10, hi=10):
        v = self.model.get(name)
        if v is None:
            v = (lo + hi) / 2 if lo is not None and hi is not None else 0.0
        v = float(v)
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        return v

    def fresh(self, stem, lo=None, hi=None):
        self.nfresh += 1
        return self.real(f'{stem}!{self.nfresh}', lo, hi)

    def vec(self, name, n, lo=-10, hi=10):
        import numpy as np
        los = lo if isinstance(lo, (list, tuple)) else [lo] * n
        his = hi if isinstance(hi, (list, tuple)) else [hi] * n
        return np.array([self.real(f'{name}{i}', los[i], his[i]) for i in range(n)])

    def jvec(self, name, n, lo=-10, hi=10):
        import jax.numpy as jnp
        return jnp.array(self.vec(name, n, lo, hi))

    def jreal(self, name, lo=-10, hi=10):
        return self.real(name, lo, hi)

    def flag(self, name):
        return bool(self.choice(name, 2))

    def boolvar(self, name):
        return bool(self.model.get('bool:' + name, False))

    def choice(self, name, n):
        v = self.choices.get(name, 0)
        return v if isinstance(n, int) else list(n)[v]

    def decide(self, b):
        return bool(b)

    def assume(self, b):
        if not bool(b):
            raise NotReproduced()

    def check(self, b, label, soft_replay=False, hint=None):
        self.log.append((label, bool(b)))
        if not bool(b):
            raise Violated(label)

    def numbers(self, fn, label):
        return fn()

    def close(self, a, b, label, tol=1e-6):
        import numpy as np
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        ok = x.shape == y.shape and bool(np.all((np.abs(x - y) <= tol * self.tol_scale) | (x == y)))
        self.log.append((label, ok))
        if not ok:
            raise Violated(label, f'{x.tolist()} vs {y.tolist()}')

    def iff(self, a, b, label):
        self.check(bool(a) == bool(b), label)

    def fail(self, label):
        self.check(False, label)

    def note(self, s):
        pass


# ------------------------------------------------------------------------------------------------ job runner
class Job:
    """one harness with one parameter set, explored symbolically"""

    def __init__(self, prop, name, fn, params, seed=1, budget_s=20, fork_ms=300, max_paths=4000, wall_s=600):
        self.prop, self.name, self.fn, self.params = prop, name, fn, params
        self.seed, self.budget_s, self.fork_ms, self.max_paths, self.wall_s = seed, budget_s, fork_ms, max_paths, wall_s
        self.stats = {'paths': 0, 'forks': 0, 'checks': 0, 'infeasible': 0}
        self.labels = {}
        self.samples = []
        self.violations = []
        self.unreproduced = []
        self.inconclusive = []
        self.errors = []
        self.notes = []

    def replay(self, ctx, label, models):
        ms = [{'reals': {k: [v.numerator, v.denominator] for k, v in m.reals.items()}, 'bools': m.bools, 'choices': ctx.choices}
              for m in models]
        return run_replay({'property': self.prop, 'harness': self.name, 'params': self.params, 'label': label, 'models': ms})

    def explore(self):
        global CTX
        from vf import solve, sym
        t0 = time.time()
        stack = [[]]
        while stack:
            if self.stats['paths'] >= self.max_paths or time.time() - t0 > self.wall_s:
                self.errors.append(f'exploration limit reached ({self.stats["paths"]} paths, {time.time()-t0:.0f}s)')
                break
            prefix = stack.pop()
            ctx = SymCtx(prefix, self)
            CTX = ctx
            self.stats['paths'] += 1
            try:
                self.fn(ctx, **self.params)
            except PathEnd:
                self.stats['infeasible'] += 1
            except Violated:
                break
            except (KeyboardInterrupt, SystemExit):
                raise
            except BaseException as e:  # noqa: BLE001
                unsupported = isinstance(e, (sym.Unsupported, z3err()))
                tb = traceback.format_exc(limit=-8)
                hit = self._crash(ctx, e, unsupported)
                if hit:
                    break
                self.errors.append(('unsupported: ' if unsupported else 'exception: ') + tb[-1800:])
                if len(self.errors) >= 6:
                    break
            stack.extend(ctx.alts)
        CTX = None
        self.wall = time.time() - t0
        return self

    def _crash(self, ctx, e, unsupported):
        """the code under test raised (or could not be encoded) on this path: does the real code misbehave at
        solver-chosen inputs of the same path?"""
        from vf import solve
        base = ctx._base()
        r = solve.satisfiable(base, budget_s=8, seed=self.seed)
        if r.status == 'unsat':
            return False
        models = [r.model if r.status == 'sat' else solve.Model({}, {})]
        if r.status == 'sat':
            models += solve.more_models(base, 12, self.seed, budget_s=6)
        self.stats['fallback_inputs'] = self.stats.get('fallback_inputs', 0) + len(models)
        label = f'no exception ({type(e).__name__}: {str(e)[:120]})'
        res = self.replay(ctx, None, models)
        if res is None:
            return False
        res['label'] = res.get('label') or label
        self.violations.append(res)
        return True

    def result(self):
        from vf import solve
        for lab, d in self.labels.items():
            if not d['reached'] and not self.violations and not self.errors:
                self.errors.append(f'vacuous: check "{lab}" was never reached with satisfiable assumptions')
        return {
            'prop': self.prop, 'name': self.name, 'params': self.params, 'stats': self.stats, 'labels': self.labels, 'samples': self.samples,
            'violations': self.violations, 'unreproduced': self.unreproduced, 'inconclusive': self.inconclusive, 'errors': self.errors,
            'notes': self.notes, 'solver': dict(solve.STATS), 'wall': self.wall,
        }


def z3err():
    import z3
    return z3.Z3Exception


def run_replay(doc):
    """run the harness concretely on the unmodified code in a fresh interpreter; returns a violation record or None"""
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(doc, sort_keys=True)
    path = os.path.join(d, f"{doc['property']}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json")
    with open(path, 'w', encoding='utf-8') as f:
        f.write(blob)
    env = dict(os.environ)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    try:
        p = subprocess.run([sys.executable, '-m', 'vf.replay', path], cwd=VERIF, env=env, capture_output=True, text=True, timeout=240, check=False)
    except subprocess.TimeoutExpired:
        os.unlink(path)
        return None
    if p.returncode == 1 and 'REPRODUCED' in p.stdout:
        lines = [ln for ln in p.stdout.splitlines() if ln.startswith('REPRODUCED')]
        which = [ln for ln in p.stdout.splitlines() if ln.startswith('MODEL ')]
        if which and len(doc['models']) > 1:
            doc['models'] = [doc['models'][int(which[-1].split()[1])]]
            with open(path, 'w', encoding='utf-8') as f:
                json.dump(doc, f, sort_keys=True)
        return {'label': doc['label'] or lines[-1][len('REPRODUCED '):], 'path': path, 'detail': lines[-1]}
    if os.environ.get('VF_DEBUG'):
        print('replay not reproduced', path, p.returncode, p.stdout[-1500:], p.stderr[-1500:], file=sys.stderr)
    else:
        os.unlink(path)
    return None
