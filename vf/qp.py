"""Comparing the quadratic program a filter solves (symbolic) and the control it returns (concrete) with a reference program."""
from __future__ import annotations

import warnings

import numpy as np

from vf.lib import *

MARGIN = 1e-3


class Row:
    """coef . z >= const  (z = control followed by slacks); `when`: condition under which the row is required / allowed"""

    def __init__(self, coef, const, must=True, may=True):
        self.coef, self.const, self.must, self.may = list(coef), const, must, may

    def val(self, z):
        return dot(self.coef, z) - self.const


def bound_rows(m, ns, lo, hi):
    out = []
    for i in range(m):
        e = [1.0 if k == i else 0.0 for k in range(m + ns)]
        if lo is not None and lo[i] is not None:
            out.append(Row(e, lo[i]))
        if hi is not None and hi[i] is not None:
            out.append(Row([-v for v in e], -hi[i]))
    return out


def solve_ref(m, ns, rows, desired, weights):
    """the reference answer: (control or None when infeasible)"""
    import quadprog
    G = np.diag([1.0] * m + list(weights))
    a = np.concatenate([np.asarray(desired, float), np.zeros(ns)])
    C = np.array([[float(c) for c in r.coef] for r in rows if r.must]).reshape(-1, m + ns).T
    b = np.array([float(r.const) for r in rows if r.must])
    try:
        return quadprog.solve_qp(G, a, C, b, 0)[0][:m]
    except ValueError:
        return None


def check_filter(ctx, make, state, dt, m, rows, priorities=(), zmax=5, lo=None, hi=None, wlabel='', prep=None, objective=True, sets=True, io='np'):
    """make(): a filter that raises SolverError when infeasible.  rows: reference rows over (control, slacks)."""
    ns = len(priorities)
    d = wants(ctx, 'd', m, io, zmax)
    z = [ctx.real(f'z{i}', -zmax, zmax) for i in range(m + ns)]
    if not ctx.symbolic:
        return concrete(ctx, make, state, dt, m, ns, rows, priorities, (d, z[:m]) if io != 'int' else WHOLE, lo, hi, io)
    rta = make()
    from vf import stubs
    got, ans = [], []

    def handler(call):
        got.append(call)
        ans.append([ctx.fresh('qp') for _ in range(call.n)])
        return stubs.qp_result(call, ans[-1])

    ctx.qp_handler = handler
    out = vals(rta.filter_control(given(state, 'jax' if io == 'jax' else 'np'), dt, given(d, io)))
    ctx.qp_handler = None
    ctx.check(len(got) == 1, 'one quadratic program is solved per call')
    side = lambda b, i: None if b is None else b[i]
    ctx.close(out, [clipv(ans[0][i], side(lo, i), side(hi, i)) for i in range(m)], 'the program\'s answer (within the bounds) is what is returned')
    call = got[0]
    if call.meq != 0 or call.n != m + ns:
        ctx.fail('the program has one variable per control and slack and only inequalities')
    if objective:
        g = call.grad(d + [0.0] * ns)
        ctx.close(nparr(g), nparr([0.0] * call.n), 'without constraints the answer is the desired control with zero slack')
        k = call.G[0, 0]
        ctx.check(k > 0, 'the objective is a positive weighting')
        off = [call.G[i, j] for i in range(call.n) for j in range(call.n) if i != j]
        ctx.check(And([absv(v) <= 1e-9 for v in off] or [True]), 'deviations are weighted independently')
        ctx.check(And([absv(call.G[i, i] - k) <= 1e-9 for i in range(m)]), 'all control deviations weigh the same')
        for i, p in enumerate(priorities):
            w = call.G[m + i, m + i] / k
            ctx.check(Or(absv(w - float(np.sqrt(p))) <= 1e-6 * float(np.sqrt(p)), absv(w - float(p)) <= 1e-6 * p), 'slack is penalised by its priority')
    if not sets:
        return rta, call
    cap = call.rows(z)
    must = [r for r in rows if r.must is not False]
    may = [r for r in rows if r.may is not False]
    allcap = And([c >= 0 for c in cap])
    allref = And([Implies(r.may, r.val(z) >= 0) for r in may])
    rv = [(r, r.val(z)) for r in must]
    for r, v in rv:
        ctx.check(Implies(And(allcap, r.must), v >= -MARGIN), 'every control the program admits meets the required conditions' + wlabel, hint=same(v, cap))
    sure = [r.val(z) for r in may if r.may is True]
    for c in cap:
        ctx.check(Implies(allref, c >= -MARGIN), 'the program admits every control meeting the required conditions' + wlabel, hint=same(c, sure))
    return rta, call


def same(v, others):
    """v >= w - MARGIN for a w among the others that is v up to rounding (then w >= 0 makes v >= -MARGIN), if there is one"""
    from vf import sym
    for w in others:
        d = sym.lift(v) - sym.lift(w)
        lo, hi = d.iv
        if lo is not None and hi is not None and lo >= -MARGIN / 2 and hi <= MARGIN / 2:
            return d >= -MARGIN
    return None


def outcome(make, state, dt, des, io='np'):
    rta = make()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return [float(v) for v in rta.filter_control(given(state, 'jax' if io == 'jax' else 'np'), dt, given(des, io))]
        except R.utils.SolverError:
            return None


def concrete(ctx, make, state, dt, m, ns, rows, priorities, desired, lo, hi, io='np'):
    rows = [r for r in rows]
    calls = []
    desired = [list(map(float, des))[:m] for des in desired]
    if ns:  # slack weights show in the answer only when the desired control presses against the relaxed conditions
        desired += [[v + k * s for v, s in zip(desired[0], sg)] for k in (3.0, -3.0, 10.0, -10.0) for sg in ([1.0] * m, [(-1.0)**i for i in range(m)])]
    for des in desired:
        with Recorder(calls):
            got = outcome(make, state, dt, des, io)
        refs = []
        for ws in ([np.sqrt(p) for p in priorities], list(priorities)):
            u = solve_ref(m, ns, rows, des, ws)
            if u is not None:
                u = [clipv(u[i], None if lo is None else lo[i], None if hi is None else hi[i]) for i in range(m)]
            refs.append(u)
        if not any((got is None and u is None) or (got is not None and u is not None and np.allclose(got, u, atol=2e-5, rtol=1e-5)) for u in refs):
            ctx.log.append(('reference', refs))
            raise_violation(f'desired {list(map(float, des))}: filter gives {got}, reference gives {refs}')
    for G, a in calls[:len(desired)]:  # the objective handed to the library, where the answers above do not expose it
        k = G[0, 0]
        ok = k > 0 and G.shape == (m + ns, m + ns) and np.allclose(G, np.diag(np.diag(G)), atol=1e-9) and np.allclose(np.diag(G)[:m], k, rtol=1e-9)
        for i, p in enumerate(priorities):
            w = G[m + i, m + i] / k
            ok = ok and (abs(w - np.sqrt(p)) <= 1e-6 * np.sqrt(p) or abs(w - p) <= 1e-6 * p)
        if not ok:
            raise_violation(f'the deviations and slacks are weighted {np.diag(G)}, slack priorities {list(priorities)}')
    return None, None


class Recorder:
    """records the objectives handed to the QP library, which runs unchanged"""

    def __init__(self, calls):
        self.calls = calls

    def __enter__(self):
        self.real = R.asif.quadprog.solve_qp

        def rec(G, a, *r, **k):
            self.calls.append((np.array(G, dtype=float), np.array(a, dtype=float)))
            return self.real(G, a, *r, **k)

        R.asif.quadprog.solve_qp = rec

    def __exit__(self, *a):
        R.asif.quadprog.solve_qp = self.real


def raise_violation(msg):
    from vf import core
    raise core.Violated('the filtered control is not the closest admissible control', msg)
