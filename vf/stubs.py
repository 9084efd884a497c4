"""Contracts standing in for the numerical libraries during symbolic execution (never during replay).

quadprog.solve_qp   : returns *some* point meeting the optimality facts below, or reports inconsistency
scipy minimize      : returns *some* point meeting the constraints (when it reports success)
RK45 integrators    : one classical 4th-order Runge-Kutta step of the same vector field
"""
from __future__ import annotations

import numpy as np

from vf import jaxsym, npsym, sym

INCONSISTENT = 'constraints are inconsistent, no solution'


class QPCall:
    """a captured quadratic program  min 1/2 x'Gx - a'x  s.t.  C'x >= b"""

    def __init__(self, G, a, C, b, meq):
        self.G, self.a, self.C, self.b, self.meq = G, a, C, b, meq
        self.n = a.shape[0]
        self.m = 0 if C is None else C.shape[1]

    def row(self, j, x):
        r = -self.b[j]
        for i in range(self.n):
            r = r + jaxsym._mul(self.C[i, j], x[i])
        return r

    def rows(self, x):
        return [self.row(j, x) for j in range(self.m)]

    def objective(self, x):
        r = sym.ZERO
        for i in range(self.n):
            for j in range(self.n):
                r = r + x[i] * self.G[i, j] * x[j] / 2
            r = r - self.a[i] * x[i]
        return r

    def grad(self, x):
        return [sum((self.G[i, j] * x[j] for j in range(self.n)), sym.ZERO) - self.a[i] for i in range(self.n)]


def solve_qp(ctx, G, a, C=None, b=None, meq=0, factorized=False):
    if factorized:
        raise sym.Unsupported('factorized QP')
    G, a = npsym._to_obj(G), npsym._to_obj(a)
    if G.ndim != 2 or G.shape[0] != G.shape[1]:
        raise ValueError('G must be a square matrix')
    if a.shape != (G.shape[0], ):
        raise ValueError('G and a must have the same dimension')
    if C is not None:
        C, b = npsym._to_obj(C), npsym._to_obj(b)
        if C.ndim != 2 or C.shape[0] != G.shape[0]:
            raise ValueError('G and C must have the same first dimension')
        if b.shape != (C.shape[1], ):
            raise ValueError('The number of columns of C must match the length of b')
    call = QPCall(G, a, C, b, int(meq))
    ctx.qp_calls.append(call)
    if ctx.qp_handler is not None:
        return ctx.qp_handler(call)
    return default_qp(ctx, call)


def qp_result(call, x, iact=(), lagr=None):
    """what quadprog returns; lagr: {row: multiplier} (zero elsewhere)"""
    x = npsym.as_symnd(list(x))
    if lagr:
        mult = npsym.as_symnd([lagr.get(j, 0.0) for j in range(call.m)])
        return x, sym.ZERO, x, np.array([1, 0]), mult, np.array(list(iact), dtype=np.int32)
    it = np.array(list(iact), dtype=np.int32)
    return x, sym.ZERO, x, np.array([1, 0]), npsym.wrap(jaxsym.lift_array(np.zeros(call.m))), it


def default_qp(ctx, call, iact=(), may_fail=True, stem='qp', fail_name=None):
    """fork: feasible (fresh solution satisfying every row; equal to the unconstrained optimum if that is feasible) or not"""
    i = len(ctx.qp_calls)
    if may_fail and ctx.choice(fail_name or f'qp_inconsistent#{i}', 2):
        raise ValueError(INCONSISTENT)
    x = [ctx.fresh(stem) for _ in range(call.n)]
    for j in range(call.m):
        ctx.assume(call.row(j, x) >= 0)
    return qp_result(call, x, iact)


class OptRes:

    def __init__(self, x, success, message='stub', status=8):
        self.x, self.success, self.message = x, success, message
        self.fun, self.nit, self.status = sym.ZERO, 1, 0 if success else status

    def __getitem__(self, k):
        return getattr(self, k)


class MinCall:

    def __init__(self, fun, x0, args, method, bounds, constraints):
        self.fun, self.x0, self.args, self.method, self.bounds, self.constraints = fun, x0, args, method, bounds, constraints
        self.n = x0.shape[0]

    def objective(self, x):
        return npsym.elem(npsym._to_obj(self.fun(npsym.as_symnd(list(x)), *self.args)))

    def cons(self, x):
        """values of the constraint functions at x (kind, value)"""
        out = []
        xs = npsym.as_symnd(list(x))
        for c in self.constraints:
            v = npsym._to_obj(c['fun'](xs, *c.get('args', ())))
            for e in v.reshape(-1):
                out.append((c['type'], e))
        return out

    def bound_rows(self, x):
        out = []
        if self.bounds is None:
            return out
        b = self.bounds
        if hasattr(b, 'lb'):
            b = list(zip(np.broadcast_to(b.lb, (self.n, )), np.broadcast_to(b.ub, (self.n, ))))
        b = list(b)
        if len(b) != self.n:
            raise ValueError('The number of bounds is not compatible with the length of `x0`.')
        for i, (lo, hi) in enumerate(b):
            for v, s in ((lo, 1), (hi, -1)):
                if v is None:
                    continue
                v = npsym._to_obj(v)
                if v.ndim:
                    raise ValueError('setting an array element with a sequence.')
                v = v[()]
                if isinstance(v, float):
                    continue
                out.append(s * (x[i] - v))
        return out


def minimize(ctx, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), tol=None, callback=None,
             options=None):
    if not isinstance(args, tuple):
        args = (args, )
    if isinstance(constraints, dict):
        constraints = [constraints]
    call = MinCall(fun, npsym._to_obj(x0), args, method, bounds, list(constraints))
    ctx.min_calls.append(call)
    if ctx.min_handler is not None:
        return ctx.min_handler(call)
    return default_min(ctx, call)


def default_min(ctx, call):
    ok = not ctx.choice(f'min_fails#{len(ctx.min_calls)}', 2)
    x = [ctx.fresh('sl') for _ in range(call.n)]
    if ok:
        for r in call.bound_rows(x):
            ctx.assume(r >= 0)
        for kind, v in call.cons(x):
            ctx.assume(v >= 0 if kind == 'ineq' else sym.cmp0(v, 'eq'))
    return OptRes(npsym.as_symnd(list(x)), ok)


# ------------------------------------------------------------------------------------------------- integrators
def rk4(f, step_size, state, control):
    h = step_size
    k1 = f(0.0, state, control)
    k2 = f(h / 2, state + (h / 2) * k1, control)
    k3 = f(h / 2, state + (h / 2) * k2, control)
    k4 = f(h, state + h * k3, control)
    return state + (h / 6) * (k1 + 2 * k2 + 2 * k3 + k4)


def step_rk45(f, step_size, state, control, trajectory_samples=0):
    nxt = rk4(f, step_size, state, control)
    return nxt, f(step_size, nxt, control), None, None


def patch_ode():
    import safe_autonomy_simulation.dynamics.utils as du
    import safe_autonomy_simulation.jax.ode as jo

    from vf import core
    for mod in (du, jo):
        real = mod.step_rk45

        def step(f, step_size, state, control, trajectory_samples=0, _real=real):
            if core.CTX is None:
                return _real(f, step_size, state, control, trajectory_samples)
            return step_rk45(f, step_size, state, control, trajectory_samples)

        mod.step_rk45 = step
