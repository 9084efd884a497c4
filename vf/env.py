"""Loads the code under test from /repo: instrumented for symbolic execution, or untouched for replay."""
from __future__ import annotations

import importlib
import os
import sys
import types

REPO = os.environ.get('VF_REPO', '/repo')
MODULES = [
    'run_time_assurance.utils.utils', 'run_time_assurance.utils', 'run_time_assurance.state', 'run_time_assurance.constraint',
    'run_time_assurance.controller', 'run_time_assurance.rta.base', 'run_time_assurance.rta.simplex', 'run_time_assurance.rta.asif',
    'run_time_assurance.rta', 'run_time_assurance.utils.sample_testing', 'run_time_assurance.zoo.cwh.utils',
    'run_time_assurance.zoo.cwh.docking_2d', 'run_time_assurance.zoo.cwh.docking_3d', 'run_time_assurance.zoo.cwh.inspection_1v1',
    'run_time_assurance.zoo.cwh.inspection_3d', 'run_time_assurance.zoo.cwh.random_sample_testing', 'run_time_assurance.zoo.integrators.integrator_1d',
]


class NS(types.SimpleNamespace):
    pass


R = NS()
ENCODED = set()
PATHS_DONE = False


def setup_paths():
    global PATHS_DONE
    if PATHS_DONE:
        return
    PATHS_DONE = True
    os.environ.setdefault('JAX_PLATFORMS', 'cpu')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    tools = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if tools not in sys.path:
        sys.path.append(tools)
    import jax
    jax.config.update('jax_enable_x64', True)


def _collect():
    for name in MODULES:
        try:
            m = importlib.import_module(name)
        except ModuleNotFoundError as e:
            if e.name == name:
                continue
            raise
        setattr(R, name.rsplit('.', 1)[-1] if not name.endswith(('rta', 'utils')) or name.endswith('utils.utils') else name.split('.')[-1], m)
    for name, m in list(sys.modules.items()):
        if name.startswith('run_time_assurance') and m is not None:
            f = getattr(m, '__file__', '') or ''
            assert f.startswith(REPO), f'{name} loaded from {f}, not {REPO}'
    R.cwh_utils = sys.modules['run_time_assurance.zoo.cwh.utils']
    R.utils = sys.modules['run_time_assurance.utils']


def load_concrete():
    setup_paths()
    _collect()
    return R


def load_symbolic():
    setup_paths()
    import diffrax  # noqa: F401  (imported before jax.jit is wrapped)
    import jax
    import quadprog
    import safe_autonomy_simulation.dynamics  # noqa: F401
    import scipy.optimize
    import scipy.linalg

    from vf import core, jaxsym, npsym
    jaxsym.install()
    for t in npsym.TRANSFORMS:
        if hasattr(jax, t):
            setattr(jax, t, npsym.transform(getattr(jax, t)))
    real_qp = quadprog.solve_qp
    real_min = scipy.optimize.minimize

    def solve_qp(*a, **k):
        if core.CTX is None:
            return real_qp(*a, **k)
        from vf import stubs
        return stubs.solve_qp(core.CTX, *a, **k)

    def minimize(*a, **k):
        if core.CTX is None:
            return real_min(*a, **k)
        from vf import stubs
        return stubs.minimize(core.CTX, *a, **k)

    quadprog.solve_qp = solve_qp
    scipy.optimize.minimize = minimize
    _collect()
    for name, m in list(sys.modules.items()):
        if m is None:
            continue
        if name.startswith('run_time_assurance') or name.startswith('safe_autonomy_simulation'):
            npsym.instrument_module(m)
    _patch_ode()
    _monitor()
    return R


def _patch_ode():
    """RK45 stepping (scipy/diffrax adaptive solvers) cannot be encoded; see stubs.rk4"""
    from vf import stubs
    stubs.patch_ode()


def _monitor():
    """record which functions of /repo were executed symbolically"""
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, 'vf')
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(REPO + '/run_time_assurance'):
            ENCODED.add(os.path.relpath(code.co_filename, REPO) + ':' + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def restart_monitor():
    sys.monitoring.restart_events()
