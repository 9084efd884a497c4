import os
import sys
from collections import OrderedDict

sys.path.insert(0, os.getcwd())
import jax

jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
import numpy as np

from run_time_assurance.constraint import *
from run_time_assurance.constraint import DirectInequalityConstraint
from run_time_assurance.controller import RTABackupController
from run_time_assurance.rta.asif import DiscreteASIFModule, ExplicitASIFModule, ImplicitASIFModule
from run_time_assurance.rta.base import CascadedRTA, RTAModule
from run_time_assurance.rta.simplex import ExplicitSimplexModule, ImplicitSimplexModule
from run_time_assurance.utils import SolverError

LIN = PolynomialConstraintStrengthener([0, 1.0])


class Lin(ConstraintModule):
    """h = w.x + c"""

    def __init__(self, w, c, alpha=LIN, **kw):
        super().__init__(alpha=alpha, params={'w': jnp.array(w, dtype=float), 'c': jnp.array(float(c))}, **kw)

    def _compute(self, state, params):
        return jnp.dot(params['w'], state) + params['c']


class Back(RTABackupController):
    """u = k x + s;  s advances by one (times inc) every time it is used"""

    def __init__(self, k=((0.0, 0.0), ), s0=0.0, inc=0.0, **kw):
        self.k, self.inc = jnp.array(k, dtype=float), inc
        super().__init__(controller_state_initial=jnp.array([float(s0)]), **kw)

    def _generate_control(self, state, step_size, controller_state=None):
        return self.k @ state + controller_state[0], controller_state + self.inc


class Sys:
    """double integrator, Euler"""

    def setup(self, cons, direct=None):
        self._cons, self._direct = cons, direct or {}

    def _setup_constraints(self):
        return OrderedDict(self._cons)

    def _setup_direct_constraints(self):
        return OrderedDict(self._direct)

    def _pred_state(self, state, step_size, control):
        return state + step_size * jnp.array([state[1], control[0]])

    def next_state_differentiable(self, state, step_size, control):
        return state + step_size * jnp.array([state[1], control[0]])

    def state_transition_system(self, state):
        return jnp.array([state[1], 0.0])

    def state_transition_input(self, state):
        return jnp.array([[0.0], [1.0]])


def make(base, cons, direct=None, **kw):

    class M(Sys, base):

        def __init__(self):
            self.setup(cons, direct)
            if issubclass(base, (ExplicitASIFModule, ImplicitASIFModule, DiscreteASIFModule)):
                kw.setdefault('control_dim', 1)
            super().__init__(**kw)

    return M()


def expect(cond, what):
    if not cond:
        print('BROKEN:', what)
        sys.exit(1)


def close(a, b, what, tol=1e-3):
    expect(np.allclose(np.asarray(a, float), np.asarray(b, float), atol=tol), f'{what}: {np.asarray(a).tolist()} instead of {np.asarray(b).tolist()}')


def A(*x):
    return np.array(x, dtype=float)
