"""Generic user-defined systems on top of the library's base classes (what a user of the library writes)."""
from __future__ import annotations

from collections import OrderedDict

import jax.numpy as jnp
import numpy as np

from vf.env import R
from vf.lib import *


class Spec:
    """a symbolic linear plant  xdot = A x + B u, affine/quadratic constraints, affine (optionally stateful) backup law"""

    def __init__(self, ctx, n=2, m=1, cons=('aff', 'quad'), dt=0.5, plant='sym', clo=None, chi=None, stateful=False, kscale=1, con_kw=None,
                 strict_params=True, xmax=5, drift=False, fixedw=False):
        self.ctx, self.n, self.m, self.dt = ctx, n, m, dt
        if plant == 'sym':
            self.A = mat(ctx, 'A', n, n)
            self.B = mat(ctx, 'B', n, m)
        elif plant == 'int':  # double integrator chain
            self.A = [[1.0 if j == i + 1 else 0.0 for j in range(n)] for i in range(n)]
            self.B = [[(1.0 if i == n - 1 - j else 0.0) for j in range(m)] for i in range(n)]
        elif plant in ('conc', 'nl'):
            self.A = [[((3 * i + 5 * j) % 7 - 3) / 4 for j in range(n)] for i in range(n)]
            self.B = [[((2 * i + 3 * j) % 5 - 1.5) / 2 for j in range(m)] for i in range(n)]
        elif plant == 'damp':  # stays bounded over long horizons
            self.A = [[-0.25 if i == j else (0.5 if j == i + 1 else 0.0) for j in range(n)] for i in range(n)]
            self.B = [[(1.0 if i == n - 1 - j else 0.25) for j in range(m)] for i in range(n)]
        # bilinear drift and state-dependent input matrix
        self.nl = plant == 'nl'
        self.fe = [0.25 - 0.5 * (i % 2) for i in range(n)] if self.nl else [0.0] * n
        self.ge = [[0.5 - 0.25 * ((i + 2 * j) % 3) for j in range(m)] for i in range(n)] if self.nl else [[0.0] * m for _ in range(n)]
        self.drift = [ctx.real(f'dr{i}', -1, 1) for i in range(n)] if drift else [0.0] * n
        self.bound_args = (clo, chi)
        self.clo = None if clo is None else [float(v) for v in clo] if isinstance(clo, (list, tuple)) else [float(clo)] * m
        self.chi = None if chi is None else [float(v) for v in chi] if isinstance(chi, (list, tuple)) else [float(chi)] * m
        self.K = [[((i + 2 * j) % 3 - 1) * 0.5 - 0.25 for j in range(n)] for i in range(m)]
        self.k0 = [ctx.real(f'k0{i}', -1, 1) for i in range(m)]
        self.stateful = stateful
        self.cons_kind = list(cons)
        self.con_kw = con_kw or [{} for _ in cons]
        self.pars = []
        for i, kind in enumerate(self.cons_kind):
            if fixedw:
                p = {'c': ctx.real(f'c{i}', -4, 4), 'w': [[1.0, -0.5, 0.75], [-0.75, -1.0, 0.5], [0.25, 1.0, -1.0]][i][:n]}
            else:
                p = {'c': ctx.real(f'c{i}', -4, 4), 'w': [ctx.real(f'w{i}{j}', -2, 2) for j in range(n)]}
            if kind == 'quad':
                p['q'] = 0.5 if fixedw else ctx.real(f'q{i}', -2, 2)
            self.pars.append(p)
        self.x = [ctx.real(f'x{i}', -xmax, xmax) for i in range(n)]

    # ---- reference semantics
    def f(self, x):
        r = add(matvec(self.A, x), self.drift)
        return add(r, scale(x[0] * x[-1], self.fe)) if self.nl else r

    def g(self, x):
        if not self.nl:
            return self.B
        return [[b + e * x[0] for b, e in zip(rb, re)] for rb, re in zip(self.B, self.ge)]

    def gcol(self, x, j):
        return [r[j] for r in self.g(x)]

    def jac(self, x, s=None):
        """derivative of f + g.u along the (unbounded) backup law"""
        g = self.g(x)
        J = [[self.A[i][j] + sum(g[i][k] * self.K[k][j] for k in range(self.m)) for j in range(self.n)] for i in range(self.n)]
        if self.nl:
            u = self.backup_raw(x, s)
            for i in range(self.n):
                J[i][0] = J[i][0] + self.fe[i] * x[-1] + dot(self.ge[i], u)
                J[i][-1] = J[i][-1] + self.fe[i] * x[0]
        return J

    def step(self, x, u, dt=None):
        dt = self.dt if dt is None else dt
        return add(x, scale(dt, add(self.f(x), matvec(self.g(x), u))))

    def h(self, i, x, pars=None):
        p = (pars or self.pars)[i]
        r = p['c'] + dot(p['w'], x)
        if self.cons_kind[i] == 'quad':
            r = r - p['q'] * x[0] * x[0]
        return r + self.bias(i)

    def bias(self, i):
        return self.con_kw[i].get('bias', 0)

    def gradh(self, i, x, pars=None):
        p = (pars or self.pars)[i]
        g = list(p['w'])
        if self.cons_kind[i] == 'quad':
            g[0] = g[0] - 2 * p['q'] * x[0]
        return g

    def clip(self, u):
        return [clipv(u[i], None if self.clo is None else self.clo[i], None if self.chi is None else self.chi[i]) for i in range(self.m)]

    def backup_raw(self, x, s=None):
        u = add(matvec(self.K, x), self.k0)
        if self.stateful and s is not None:
            u = add(u, [s * 0.5] * self.m)
        return u

    def backup(self, x, s=None):
        return self.clip(self.backup_raw(x, s))

    def next_s(self, x, s):
        return 0.5 * s + 0.25 * x[0] + 0.125

    # ---- library objects
    def constraint(self, i, **kw):
        kind, p = self.cons_kind[i], self.pars[i]
        params = {'c': pj(p['c']), 'w': jarr(p['w'])}
        if kind == 'quad':
            params['q'] = pj(p['q'])
        k = dict(self.con_kw[i])
        k.update(kw)
        if 'alpha' not in k:
            k['alpha'] = R.constraint.PolynomialConstraintStrengthener([0, 0.5, 0, 0.25])
        return (QuadCon if kind == 'quad' else AffCon)(params=params, **k)

    def constraints(self, **kw):
        return OrderedDict((f'con{i}', self.constraint(i, **kw)) for i in range(len(self.cons_kind)))

    def set_params(self, con, i, p):
        con.params['c'] = pj(p['c'])
        con.params['w'] = jarr(p['w'])
        if self.cons_kind[i] == 'quad':
            con.params['q'] = pj(p['q'])

    def controller(self, s0=None, **kw):
        return Backup(self, s0, **kw)

    def bounds_kw(self):
        k = {}
        if self.clo is not None:
            k['control_bounds_low'] = list(self.bound_args[0]) if isinstance(self.bound_args[0], (list, tuple)) else self.clo[0]
        if self.chi is not None:
            k['control_bounds_high'] = list(self.bound_args[1]) if isinstance(self.bound_args[1], (list, tuple)) else self.chi[0]
        return k


def pj(x):
    """a scalar parameter as handed to the library"""
    if _sym(x):
        from vf import jaxsym
        return jaxsym.tracer_of(x)
    return x


def _sym(x):
    from vf import sym
    return isinstance(x, (sym.E, sym.B))


class AffCon(R.constraint.ConstraintModule):

    def _compute(self, state, params):
        return params['c'] + params['w'] @ state


class QuadCon(R.constraint.ConstraintModule):

    def _compute(self, state, params):
        return params['c'] + params['w'] @ state - params['q'] * state[0]**2


class Backup(R.controller.RTABackupController):

    def __init__(self, spec, s0=None, **kw):
        self.spec = spec
        self.Kj = jmat(spec.K)
        self.k0j = jarr(spec.k0)
        self.named = spec.stateful == 'dict'
        if self.named and s0 is not None:
            init = {'one': jarr([1.0]), 's': jarr([s0])}
        else:
            init = None if s0 is None else jarr([s0])
        super().__init__(controller_state_initial=init, **kw)

    def now(self):
        return self.controller_state['s'] if self.named else self.controller_state

    def _generate_control(self, state, step_size, controller_state=None):
        u = self.Kj @ state + self.k0j
        if self.named and controller_state is not None:
            s, one = controller_state['s'], controller_state['one']
            return u + 0.5 * s[0] * one[0], {'one': one, 's': 0.5 * s + 0.25 * state[0] + 0.125}
        if controller_state is not None:
            u = u + 0.5 * controller_state[0]
            controller_state = 0.5 * controller_state + 0.25 * state[0] + 0.125
        return u, controller_state


class PlantMixin:

    def plant(self, spec):
        self.spec = spec
        self.Aj, self.Bj, self.drj = jmat(spec.A), jmat(spec.B), jarr(spec.drift)

    def _setup_constraints(self):
        return self.spec.constraints()

    def _pred_state(self, state, step_size, control):
        return state + step_size * (PlantMixin.state_transition_system(self, state) + PlantMixin.state_transition_input(self, state) @ control)

    def state_transition_system(self, state):
        r = self.Aj @ state + self.drj
        return r + state[0] * state[-1] * jarr(self.spec.fe) if self.spec.nl else r

    def state_transition_input(self, state):
        return self.Bj + state[0] * jmat(self.spec.ge) if self.spec.nl else self.Bj


class GenExplicitSimplex(PlantMixin, R.simplex.ExplicitSimplexModule):

    def __init__(self, spec, **kw):
        self.plant(spec)
        kw = {**spec.bounds_kw(), **kw}
        kw.setdefault('backup_controller', None)
        if kw['backup_controller'] is None:
            kw['backup_controller'] = spec.controller()
        super().__init__(**kw)


class GenImplicitSimplex(PlantMixin, R.simplex.ImplicitSimplexModule):

    def __init__(self, spec, **kw):
        self.plant(spec)
        kw = {**spec.bounds_kw(), **kw}
        kw.setdefault('backup_controller', None)
        if kw['backup_controller'] is None:
            kw['backup_controller'] = spec.controller()
        super().__init__(**kw)


class GenExplicitASIF(PlantMixin, R.asif.ExplicitASIFModule):

    def __init__(self, spec, direct=None, **kw):
        self.plant(spec)
        self._direct = direct
        kw = {**spec.bounds_kw(), **kw}
        super().__init__(control_dim=spec.m, **kw)

    def _setup_direct_constraints(self):
        return OrderedDict() if self._direct is None else self._direct


class GenImplicitASIF(PlantMixin, R.asif.ImplicitASIFModule):

    def __init__(self, spec, direct=None, **kw):
        self.plant(spec)
        self._direct = direct
        kw = {**spec.bounds_kw(), **kw}
        kw.setdefault('backup_controller', None)
        if kw['backup_controller'] is None:
            kw['backup_controller'] = spec.controller()
        kw.setdefault('integration_method', 'Euler')
        super().__init__(control_dim=spec.m, **kw)

    def _setup_direct_constraints(self):
        return OrderedDict() if self._direct is None else self._direct

    _pred_state = R.asif.ImplicitASIFModule._pred_state


class GenDiscreteASIF(PlantMixin, R.asif.DiscreteASIFModule):

    def __init__(self, spec, **kw):
        self.plant(spec)
        kw = {**spec.bounds_kw(), **kw}
        super().__init__(control_dim=spec.m, **kw)

    def next_state_differentiable(self, state, step_size, control):
        return PlantMixin._pred_state(self, state, step_size, control)


class Direct(R.constraint.DirectInequalityConstraint):
    """a.u >= b + e x0"""

    def __init__(self, a, b, e, **kw):
        super().__init__(params={'a': jarr(a), 'b': pj(b), 'e': pj(e)}, **kw)

    def ineq_weight(self, state, params):
        return params['a']

    def ineq_constant(self, state, params):
        return params['b'] + params['e'] * state[0]


class Named:
    """a context whose variables carry a prefix (a second system next to the first)"""

    def __init__(self, ctx, prefix):
        self._ctx, self._prefix = ctx, prefix

    def real(self, name, *a, **k):
        return self._ctx.real(self._prefix + name, *a, **k)

    def __getattr__(self, k):
        return getattr(self._ctx, k)


class Constants:
    """a context whose variables are constants (a second system next to the symbolic one)"""

    def __init__(self, ctx):
        self._ctx = ctx

    def real(self, name, lo=-10, hi=10):
        return lo + (hi - lo) * ((sum(ord(c) * (i + 3) for i, c in enumerate(name)) * 5) % 16 + 0.5) / 17

    @property
    def symbolic(self):
        return self._ctx.symbolic

    def __setattr__(self, k, v):
        if k == '_ctx':
            object.__setattr__(self, k, v)
        else:
            setattr(self._ctx, k, v)

    def __getattr__(self, k):
        return getattr(self._ctx, k)
