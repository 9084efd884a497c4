"""Sample testing (episodes and verdicts), state wrappers"""
import contextlib
import csv
import io
import os
import shutil
import tempfile

from vf import zoo
from vf.env import R
from vf.gen import *
from vf.harness.c02_calls import Fixed
from vf.lib import *
from vf.registry import harness


class Filter(R.base.ConstraintBasedRTA):
    """a strategy computing  gain * state + shift * control; fails at the given calls"""

    def __init__(self, sp, fail=(), claims=(), **kw):
        self.sp = sp
        super().__init__(**kw)
        self.fail, self.claims, self.calls = fail, claims, []

    def _setup_constraints(self):
        cons = self.sp.constraints()
        if getattr(self.sp, 'own_phi', False):
            for k, c in cons.items():
                cons[k] = OwnPhi(params=c.params, alpha=c._alpha, bias=c.bias)
        return cons

    def _pred_state(self, state, step_size, control):
        return jarr(self.sp.step(vals(state), vals(control), step_size))

    def _filter_control(self, state, step_size, control):
        k = len(self.calls)
        self.calls.append((vals(state), step_size, vals(control)))
        if k < len(self.fail) and self.fail[k]:
            raise R.utils.SolverError()
        self.intervening = bool(self.claims[k]) if k < len(self.claims) else False
        return jarr(self.law(vals(state), vals(control)))

    def law(self, x, u):
        return [0.5 * v - 0.25 * x[-1] for v in u]


def plant(sp):
    """episode model of its own: not the filter's prediction"""
    return lambda x, dt, u: [a + 0.125 for a in sp.step(x, u, dt)]


def phi(sp, i, x):
    return sp.h(i, x) - sp.bias(i) + (0.5 * x[0] if getattr(sp, 'own_phi', False) else 0)


class OwnPhi(AffCon):
    """a constraint whose safety margin differs from its (control invariant) value"""

    def _phi(self, state, params):
        return params['c'] + params['w'] @ state + 0.5 * state[0]


class Episode:

    def _get_initial_state(self):
        self.drawn += 1
        return nparr(self.inits[self.drawn - 1])

    def _pred_state(self, state, step_size, control):
        return nparr(self.move(vals(state), step_size, vals(control)))

    def _desired_control(self, state):
        return nparr([self.gain * vals(state)[0] + 1.0] * self.control_dim)


def safe(sp, x):
    return And([c for i in range(len(sp.cons_kind)) for c in (phi(sp, i, x) >= 0, sp.h(i, x) >= 0)])


def wish(gain, x, m):
    return [gain * x[0] + 1.0] * m


def assurance(ctx, sp, rta, T, dt):

    class T_(Episode, R.sample_testing.SafetyAssuranceSampleTestingModule):
        pass

    t = T_(simulation_time=T, step_size=dt, control_dim=sp.m, state_dim=sp.n, rta=rta, n_points=1)
    t.gain, t.move = 0.5, plant(sp)
    return t


@harness('C27', quick=[dict(T=1.0, dt=0.5, cons=['aff', 'quad'], bias=[0, 0.25]), dict(T=1.0, dt=0.5, cons=['aff', 'aff'], bias=[-0.5, 0], fail=True), dict(T=0.25, dt=0.5, cons=['quad'], bias=[0.5]),
                       dict(T=1.2, dt=0.5, cons=['aff'], bias=[0.25]), dict(T=0.3, dt=0.1, cons=['aff'], bias=[0]), dict(T=2.0, dt=0.5, cons=['aff'], bias=[-0.25], off=True), dict(T=1.0, dt=0.5, cons=['aff', 'aff'], bias=[0, 0.25], own=True)],
         thorough=[dict(T=5.0, dt=0.5, cons=['aff', 'aff'], bias=[0, -0.5])],
         bounds='episodes of 1-4 (thorough 10) steps, 1-2 affine/quadratic constraints with biases, symbolic coefficients and initial states, a filter that may fail at any step')
def verdict(ctx, T, dt, cons, bias, fail=False, off=False, own=False):
    """SafetyAssuranceSampleTestingModule: no verdict for an initial state outside a constraint or its margin; otherwise the verdict is
    positive exactly when the filter never failed and no constraint margin was left up to the end of the episode."""
    sp = Spec(ctx, n=2, m=1, plant='conc', cons=cons, con_kw=[{'bias': b} for b in bias], dt=dt, xmax=3)
    sp.own_phi = own
    steps = 1
    t = dt
    while t < T:
        t += dt
        steps += 1
    fails = [ctx.flag(f'fail{k}') for k in range(steps)] if fail else []
    rta = Filter(sp, fails)
    if off:
        list(rta.constraints.values())[0].enabled = False
    test = assurance(ctx, sp, rta, T, dt)
    got = test._simulate_episode(nparr(sp.x))
    if got is None:
        ctx.check(Not(safe(sp, sp.x)), 'an initial state is rejected only when it is unsafe')
        ctx.check(len(rta.calls) == 0, 'nothing is simulated from a rejected initial state')
        return
    ctx.check(safe(sp, sp.x), 'unsafe initial states are rejected')
    x, okay = sp.x, []
    res = True
    for k in range(steps):
        u = wish(0.5, x, sp.m)
        if k < len(rta.calls):
            ctx.close(rta.calls[k][0], x, 'the filter is called at the current state')
            ctx.close(rta.calls[k][2], u, 'the filter is called with the desired control')
            ctx.check(rta.calls[k][1] == dt, 'the filter is called with the step size')
        if k < len(fails) and fails[k]:
            res = And(okay, False)
            break
        x = plant(sp)(x, dt, rta.law(x, u))
        okay.append(And([phi(sp, i, x) >= 0 for i in range(len(cons))]))
        res = And(okay)
    ctx.iff(bool(got), res, 'the verdict is positive exactly when the episode stays safe and the filter never fails')


@harness('C27', quick=[dict(T=1.0, dt=0.5, check=True, claims=True), dict(T=0.75, dt=0.5, check=False, claims=True), dict(T=1.5, dt=0.5, check=False, claims=False, m=2), dict(T=0.5, dt=0.5, check=True, claims=False, bad=3), dict(T=0.5, dt=0.5, check=True, claims=False, bad=40)],
         bounds='episodes of 1-3 steps, up to 2 arbitrary candidate initial states after up to 40 unsafe ones, symbolic constraints and states')
def tracking(ctx, T, dt, check, claims, m=1, bad=0):
    """DataTrackingSampleTestingModule: the first safe candidate is simulated (any candidate when not checked); states, controls and
    interventions are recorded in order, starting with the initial state."""
    sp = Spec(ctx, n=2, m=m, plant='conc', cons=('aff', ), con_kw=[{'bias': -0.25}], dt=dt, xmax=3)
    if bad:
        sp.pars = [{'c': ctx.real('c', -2, 2), 'w': [1.0, 0.0]}]
    steps = 1
    t = dt
    while t < T:
        t += dt
        steps += 1
    cl = [ctx.flag(f'claim{k}') for k in range(steps)] if claims else []
    rta = Filter(sp, (), cl)

    class T_(Episode, R.sample_testing.DataTrackingSampleTestingModule):
        pass

    test = T_(simulation_time=T, step_size=dt, control_dim=m, state_dim=2, rta=rta, check_init_state=check)
    test.gain, test.move, test.drawn = 0.5, plant(sp), 0
    y = [ctx.real('y0', -3, 3), ctx.real('y1', -3, 3)]
    test.inits = [[-50.0 - k, 0.5 * k] for k in range(bad)] + [sp.x, y]
    if check:
        ctx.assume(Or(safe(sp, sp.x), safe(sp, y)))
    S, U, I = test.simulate_episode()
    if check:
        ctx.iff(test.drawn == bad + 1, safe(sp, sp.x), 'the first safe candidate is used')
    x = test.inits[test.drawn - 1]
    xs, us = [x], [[0.0] * m]
    for k in range(steps):
        u = rta.law(x, wish(0.5, x, m))
        x = plant(sp)(x, dt, u)
        xs.append(x)
        us.append(u)
    ctx.check(tuple(np.shape(S)) == (steps + 1, 2) and tuple(np.shape(U)) == (steps + 1, m) and tuple(np.shape(I)) == (steps + 1, ), 'one record per step plus the initial one')
    ctx.close(vals(S), [v for r in xs for v in r], 'the states are recorded in order')
    ctx.close(vals(U), [v for r in us for v in r], 'the filtered controls are recorded in order')
    exp = [False] + [bool(c) for c in cl] if claims else [False] * (steps + 1)
    ctx.check([bool(v) for v in (I.tolist() if hasattr(I, 'tolist') else I)] == exp, 'the interventions are recorded in order')


@harness('C27', quick=[dict(n=1, draws=2), dict(n=2, draws=3), dict(n=3, draws=3)], thorough=[dict(n=4, draws=6)],
         bounds='1-3 (thorough 4) recorded samples out of 2-3 (thorough 6) draws, each draw rejected, safe or unsafe')
def table(ctx, n, draws):
    """SafetyAssuranceSampleTestingModule.run_sample_test: exactly the requested number of samples is written, each a verdict with the initial
    state it belongs to, in order; rejected draws are replaced."""
    rej = [ctx.flag(f'rej{k}') for k in range(draws)]
    good = [ctx.flag(f'good{k}') for k in range(draws)]
    ok = [k for k in range(draws) if not bool(rej[k])]
    ctx.assume(len(ok) >= n)
    if len(ok) < n:
        return
    outer = []

    class T_(R.sample_testing.SafetyAssuranceSampleTestingModule):

        def _get_initial_state(self):
            outer.append(len(outer))
            return np.array([float(outer[-1]), -12.3456789 + outer[-1] / 7])

        def _pred_state(self, state, step_size, control):
            raise AssertionError

        def _transform_state(self, state):
            return state + np.array([0.25, 0.0])

        def _simulate_episode(self, state):
            k = int(float(state[0]))
            assert abs(float(state[0]) - k - 0.25) < 1e-9
            return None if bool(rej[k]) else bool(good[k])

    t = T_(simulation_time=1.0, step_size=1.0, control_dim=1, state_dim=2, rta=None, n_points=n)
    out = tempfile.mkdtemp(prefix='vf_table_')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            t.run_sample_test(os.path.join(out, 'a', 'b'))
        files = [os.path.join(dp, f) for dp, _, fs in os.walk(out) for f in fs]
        ctx.check(len(files) == 1, 'one table is written')
        with open(files[0], encoding='utf-8') as f:
            rows = [r for r in csv.reader(f)]
    finally:
        shutil.rmtree(out, ignore_errors=True)
    ctx.check(len(rows) == n, 'the requested number of samples is recorded')
    for r, k in zip(rows, ok):
        ctx.check(r[0] == str(bool(good[k])) and [float(v) for v in r[1].strip('[]').split(',')] == [k + 0.25, -12.3456789 + k / 7], 'every verdict is recorded with its initial state')


# ------------------------------------------------------------------------------------------------ state wrappers
WRAP = {
    'docking_2d.Docking2dState': ('x', 'y', 'x_dot', 'y_dot'), 'docking_3d.Docking3dState': ('x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot'),
    'inspection_1v1.Inspection3dState': ('x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot', 'sun_angle', 'delta_v'), 'integrator_1d.Integrator1dDockingState': ('x', 'x_dot'),
}


@harness('C28', quick=[dict(cls=c, kind=k) for c in WRAP for k in ('jax', 'numpy')], bounds='all entries and values in [-100,100]; every pair of assignments')
def wrapper(ctx, cls, kind):
    """State wrappers: every named entry reads and writes its own place in the vector and nothing else; the wrapper owns its vector."""
    mod, name = cls.split('.')
    names = WRAP[cls]
    x = [ctx.real(f'x{i}', -100, 100) for i in range(len(names))]
    src = jarr(x) if kind == 'jax' else nparr(x)
    st = getattr(getattr(R, mod), name)(src)
    ctx.check(len(st) == len(names) and int(st.size) == len(names), 'the length is that of the vector')
    for i, k in enumerate(names):
        ctx.close(val(getattr(st, k)), x[i], f'{k} reads its entry')
    cur = list(x)
    for i, k in enumerate(names):
        v = ctx.real(f'v{i}', -100, 100)
        setattr(st, k, pj(v))
        cur[i] = v
        ctx.close(vals(st.vector), cur, f'writing {k} changes its entry and nothing else')
        for j, q in enumerate(names):
            ctx.close(val(getattr(st, q)), cur[j], f'after writing {k}, {q} reads its entry')
    ctx.close(vals(src), x, 'the vector handed in is unchanged')


# ------------------------------------------------------------------------------------------------ initial states
@contextlib.contextmanager
def patched(obj, **kw):
    old = {k: getattr(obj, k) for k in kw}
    for k, v in kw.items():
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(obj, k, v)


@harness('C27', quick=[dict(pdfs=['uniform', 'constant']), dict(pdfs=['constant', 'gaussian', 'uniform']), dict(pdfs=['uniform', 'uniform', 'gaussian', 'constant'])],
         bounds='2-4 state entries, symbolic distribution parameters in [-10,10], any random draw')
def parametric(ctx, pdfs):
    """ParametricRandomSampleTestingModule: constant entries are the given values, uniform entries lie between their bounds, gaussian entries
    have the given mean and deviation, each entry with its own parameters."""
    n = len(pdfs)
    a = [ctx.real(f'a{i}', -10, 10) for i in range(n)]
    b = [ctx.real(f'b{i}', -10, 10) for i in range(n)]
    for i in range(n):
        ctx.assume(b[i] > a[i] if pdfs[i] == 'uniform' else b[i] > 0)
    t = [ctx.real(f't{i}', 0, 1) for i in range(n)]
    z = [ctx.real(f'z{i}', -4, 4) for i in range(n)]
    got = {'u': [], 'g': []}

    def shaped(v, size):
        return v if size is None else nparr([v])

    def uniform(low=0.0, high=1.0, size=None):
        got['u'].append(len(got['u']) + len(got['g']))
        return shaped(low + (high - low) * t[got['u'][-1]], size)

    def normal(loc=0.0, scale=1.0, size=None):
        got['g'].append(len(got['u']) + len(got['g']))
        return shaped(loc + scale * z[got['g'][-1]], size)

    class T_(Episode, R.sample_testing.ParametricRandomSampleTestingModule):
        _get_initial_state = R.sample_testing.ParametricRandomSampleTestingModule._get_initial_state

    test = T_(simulation_time=1.0, step_size=1.0, control_dim=1, state_dim=n, rta=None, n_points=1, state_pdfs=list(pdfs), distribution_params=[list(a), list(b)])
    import types
    rng = types.SimpleNamespace(uniform=uniform, normal=normal, random=lambda size=None: uniform(size=size), standard_normal=lambda size=None: normal(size=size))
    with patched(np.random, uniform=uniform, normal=normal, default_rng=lambda *a, **k: rng, RandomState=lambda *a, **k: rng, rand=lambda *n: uniform(size=n or None), randn=lambda *n: normal(size=n or None),
                 random=rng.random, random_sample=rng.random):
        x = vals(test._get_initial_state())
    ctx.check(len(x) == n, 'a full state is drawn')
    for i, k in enumerate(pdfs):
        if k == 'constant':
            ctx.close(x[i], a[i], 'a constant entry')
        elif k == 'uniform':
            ctx.check(And(x[i] >= a[i] - 1e-6, x[i] <= b[i] + 1e-6), 'a uniform entry lies between its bounds')
    gi = [i for i, k in enumerate(pdfs) if k == 'gaussian']
    if len(gi) == len(got['g']):
        for i, d in zip(gi, got['g']):
            ctx.close(x[i], a[i] + b[i] * z[d], 'a gaussian entry')
    ui = [i for i, k in enumerate(pdfs) if k == 'uniform']
    if len(ui) == len(got['u']):
        for i, d in zip(ui, got['u']):
            ctx.close(x[i], a[i] + (b[i] - a[i]) * t[d], 'a uniform entry covers its whole range')


@harness('C27', quick=[dict(n=2, points=1, mult=2), dict(n=3, points=2, mult=2)], bounds='2-3 state entries, 2-4 draws, any sample in the unit cube')
def hypercube(ctx, n, points, mult):
    """LatinHypercubeRandomSampleTestingModule: the draws are the stratified samples scaled to the given bounds, each used once, in order;
    enough of them are prepared."""
    lo, hi = [-2.0 + i for i in range(n)], [1.0 + 2.5 * i for i in range(n)]
    cnt = points * mult
    s = [[ctx.real(f's{k}{i}', 0, 1) for i in range(n)] for k in range(cnt)]
    asked = []

    class Q:

        class LatinHypercube:

            def __init__(self, d, **kw):
                self.d = d

            def random(self, n=1, **kw):
                asked.append((self.d, n))
                return nparr([v for r in s[:n] for v in r], (n, self.d))

        @staticmethod
        def scale(sample, l_bounds, u_bounds, *, reverse=False):
            rows = sample.tolist()
            return nparr([v * (float(h) - float(a)) + float(a) for r in rows for v, a, h in zip(r, l_bounds, u_bounds)], (len(rows), len(rows[0])))

    class T_(Episode, R.sample_testing.LatinHypercubeRandomSampleTestingModule):
        _get_initial_state = R.sample_testing.LatinHypercubeRandomSampleTestingModule._get_initial_state

    with patched(R.sample_testing, qmc=Q):
        test = T_(simulation_time=1.0, step_size=1.0, control_dim=1, state_dim=n, rta=None, n_points=points, bounds=np.array([lo, hi]), multiplier=mult)
        got = [vals(test._get_initial_state()) for _ in range(cnt)]
    for k in range(cnt):
        ctx.check(And([And(v >= a - 1e-6, v <= h + 1e-6) for v, a, h in zip(got[k], lo, hi)]), 'every draw lies within the bounds')
        if asked:
            ctx.close(got[k], [a + (h - a) * v for v, a, h in zip(s[k], lo, hi)], 'the draws are used in order, each once')
    if asked:
        ctx.check(asked == [(n, cnt)], 'the stratified sample covers all draws')


@harness('C27', quick=[dict(kind=k, custom=c) for k in ('hypercube', 'parametric') for c in (False, True)],
         bounds='positions within 2000 m, velocities within 12 m/s, controls within 5 N, episodes of up to 2 steps of 0.5-1 s; any verdict of the margins')
def docking_samples(ctx, kind, custom):
    """Docking2D sample tests: episodes move by the Clohessy-Wiltshire-Hill equations, the desired control is zero, and the verdict says whether
    the docking constraints held along the episode."""
    mod = R.random_sample_testing
    cl = {'hypercube': mod.Docking2DLatinHypercubeRandomSampleTest, 'parametric': mod.Docking2DParametricRandomSampleTest}[kind]
    kw = dict(n_points=1, simulation_time=1.0, step_size=0.5) if custom else dict(n_points=1)
    rta = R.docking_2d.Docking2dExplicitOptimizationRTA()
    seen = []
    u = [[ctx.real(f'u{k}{i}', -5, 5) for i in range(2)] for k in range(3)]

    def answer(state, step_size, control):
        seen.append((vals(state), step_size, vals(control)))
        return nparr(u[len(seen) - 1])

    rta.filter_control = answer
    test = cl(rta=rta, **kw)
    T, dt = (1.0, 0.5) if custom else (100.0, 1.0)
    ctx.check(test.simulation_time == T and test.step_size == dt and test.control_dim == 2 and test.state_dim == 4 and test.n_points == 1 and test.rta is rta, 'the settings of the test')
    x = [ctx.real(f'x{i}', -2000, 2000) for i in range(2)] + [ctx.real(f'x{2+i}', -12, 12) for i in range(2)]
    f = lambda a, b: zoo.cwh_xdot(a, b, zoo.N0, float(zoo.M0), 2)
    ctx.close(vals(test._pred_state(nparr(x), dt, nparr(u[0]))), zoo.rk4(f, x, u[0], dt), 'motion of the spacecraft', tol=1e-3)
    ctx.close(vals(test._desired_control(nparr(x))), [0, 0], 'desired control')
    if not custom:
        return
    ref = zoo.docking(2)
    for r in ref.values():
        ctx.assume(And(r.raw(x) >= 0.01, r.h(x) >= 0.01))
    got = test._simulate_episode(nparr(x))
    y1 = zoo.rk4(f, x, u[0], dt)
    y2 = zoo.rk4(f, y1, u[1], dt)
    ctx.close(seen[0][0], x, 'the filter sees the initial state')
    ctx.check(seen[0][1] == dt, 'the filter is told the step size')
    bad1 = Or([r.raw(y1) < 0 for r in ref.values()])
    if len(seen) == 1:
        ctx.check(And(got is False, bad1), 'the episode ends early only when a constraint is violated')
    else:
        ctx.check(len(seen) == 2, 'the episode covers the simulation time')
        ctx.close(seen[1][0], y1, 'the filter sees the next state', tol=1e-3)
        ctx.iff(got, And([And(r.raw(y) >= 0) for y in (y1, y2) for r in ref.values()]), 'the verdict tells whether the constraints held')
