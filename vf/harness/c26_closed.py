"""Closed loops: plant and filter together stay in the safe set, whatever control is desired"""
import warnings

from vf import qp
from vf.env import R
from vf.gen import *
from vf.harness.c02_calls import Fixed
from vf.harness.c04_simplex import build
from vf.harness.c08_asif import A
from vf.lib import *
from vf.registry import harness

TOL = 1e-3


class Loop:
    """the user's own plant, constraints and backup law, outside the filter"""

    def __init__(self, sp, dt=None):
        self.sp, self.dt = sp, dt or sp.dt
        self.cons = list(sp.constraints().values())
        self.me = type('Me', (PlantMixin, ), {})()
        self.me.plant(sp)

    def h(self, x):
        return [val(c._compute(jarr(x), c.params)) + self.sp.bias(i) for i, c in enumerate(self.cons)]

    def safe(self, x):
        return And([v >= 0 for v in self.h(x)])

    def step(self, x, u):
        return vals(self.me._pred_state(jarr(x), self.dt, jarr(u)))

    def stays(self, ctx, x, label):
        for v in self.h(x):
            ctx.check(v >= -TOL, label)


@harness('C26', quick=[dict(kind='explicit', steps=3), dict(kind='explicit', steps=2, plant='sym', jit=False), dict(kind='explicit', steps=3, latch=1.0, cons=['aff', 'aff']), dict(kind='explicit', steps=2, stateful=True, cons=['aff', 'quad']),
                       dict(kind='explicit', steps=2, plant='nl', cons=['aff']), dict(kind='explicit', steps=2, cascade=True, cons=['aff']), dict(kind='explicit', steps=2, m=2, n=3, cons=['aff']),
                       dict(kind='implicit', steps=3, window=1.0), dict(kind='implicit', steps=4, window=1.5, jit=False, cons=['aff']), dict(kind='implicit', steps=3, window=1.0, stateful=True, cons=['aff']), dict(kind='implicit', steps=3, window=1.0, latch=1.0, cons=['aff', 'aff']),
                       dict(kind='implicit', steps=3, window=1.0, cascade=True, cons=['aff']), dict(kind='implicit', steps=4, window=1.5, jd={'integrate': True}, cons=['aff'])],
         thorough=[dict(kind='explicit', steps=5, cons=['aff']), dict(kind='explicit', steps=7, cons=['aff']), dict(kind='explicit', steps=4, latch=1.0, stateful=True, cons=['aff']), dict(kind='implicit', steps=5, window=2.0, cons=['aff']), dict(kind='implicit', steps=3, window=2.0, stateful=True, cons=['aff'])],
         bounds='closed loops of 2-5 (thorough 7) calls from any safe state with any desired controls; explicit: backup laws that keep every visited safe state safe for one step; '
         'implicit: starts whose backup trajectory is safe over the window, one call longer than the window; linear and bilinear plants, 1-2 constraints with symbolic coefficients')
def closed_simplex(ctx, kind, steps, window=0, latch=0.0, plant='conc', cons=('aff', ), stateful=False, jit=True, cascade=False, m=1, n=2, jd=None):
    """A plant driven through a simplex filter never leaves the constraints: with a backup law that keeps safe states safe (explicit), or
    for the length of the window from a state whose backup trajectory is safe (implicit)."""
    sp = Spec(ctx, n=n, m=m, plant=plant, clo=-1, chi=1, cons=cons, stateful=stateful, xmax=3, fixedw=plant == 'conc')
    s = ctx.real('s0', -1, 1) if stateful else None
    kw = dict(jit_compile_dict=dict(jd)) if jd else {}
    rta = build(sp, kind, window, jit_enable=jit, latch_time=latch, backup_controller=sp.controller(s), **kw)
    top = rta
    if cascade:
        first = Fixed([ctx.real(f'fix{i}', -2, 2) for i in range(m)], control_bounds_low=-1.5, control_bounds_high=1.5)

        class Cascade(R.base.CascadedRTA):

            def _setup_rta_list(self):
                return [first, rta]

        top = Cascade()
    x, lp = sp.x, Loop(sp)
    ctx.assume(lp.safe(x))
    if kind == 'implicit':
        y, r = x, s
        for _ in range(int(round(window / sp.dt)) + 1):
            u = sp.backup(y, r)
            r = None if r is None else sp.next_s(y, r)
            y = lp.step(y, u)
            ctx.assume(lp.safe(y))
    for t in range(steps):
        d = [ctx.real(f'd{t}_{i}', -2, 2) for i in range(m)]
        u = vals(top.filter_control(nparr(x), sp.dt, nparr(d)))
        if kind == 'explicit' and rta.intervening:
            ctx.close(u, sp.backup(x, s), 'the backup law is applied')
            ctx.assume(Or(Not(lp.safe(x)), lp.safe(lp.step(x, u))))     # what is assumed of the backup law
        if s is not None and rta.intervening:
            s = sp.next_s(x, s)
        x = lp.step(x, u)
        lp.stays(ctx, x, 'the closed loop stays within the constraints')


@harness('C26', quick=[dict(steps=2), dict(steps=1, cons=['aff', 'quad'], m=2), dict(steps=2, cons=['aff', 'aff'], jit=False), dict(steps=1, cons=['quad'], plant='nl'), dict(steps=1, cons=['aff'], plant='sym', dt=0.25)],
         thorough=[dict(steps=3, cons=['aff']), dict(steps=2, cons=['aff', 'quad'])],
         bounds='closed loops of 1-2 (thorough 3) calls from any safe state with any control the optimiser may return; decrease rate 0.5 or 1 per second')
def closed_discrete(ctx, steps, cons=('aff', ), m=1, plant='conc', jit=True, dt=0.5):
    """A plant driven through a discrete ASIF filter whose program is feasible at each call never leaves the constraints."""
    alpha = lambda k: R.constraint.PolynomialConstraintStrengthener([0, k])
    sp = Spec(ctx, n=2, m=m, plant=plant, cons=cons, con_kw=[{'alpha': alpha(0.5 + 0.5 * i)} for i in range(len(cons))], dt=dt, xmax=3, fixedw=plant == 'conc')
    rta = GenDiscreteASIF(sp, jit_enable=jit, solver_exception=True, control_bounds_low=-1, control_bounds_high=1)
    x, lp = sp.x, Loop(sp)
    ctx.assume(lp.safe(x))
    for t in range(steps):
        d = [ctx.real(f'd{t}_{i}', -1, 1) for i in range(m)]

        def handler(call):
            """the desired control stands for any control the program admits: then it is the closest one"""
            from vf import npsym, stubs
            ctx.assume(And([v >= 0 for _, v in call.cons(d)] + [v >= 0 for v in call.bound_rows(d)]))
            return stubs.OptRes(npsym.as_symnd(d), True)

        ctx.min_handler = handler
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                u = vals(rta.filter_control(nparr(x), dt, nparr(d)))
            except R.utils.SolverError:
                return
        x = lp.step(x, u)
        lp.stays(ctx, x, 'the closed loop stays within the constraints')


@harness('C26', quick=[dict(kind='explicit', steps=2), dict(kind='explicit', steps=1, cons=['aff', 'quad'], plant='sym'), dict(kind='explicit', steps=2, jit=False, cons=['quad']), dict(kind='explicit', steps=1, plant='nl', cons=['aff', 'quad'], m=2),
                       dict(kind='implicit', steps=2), dict(kind='implicit', steps=1, cons=['aff', 'aff'], jit=False), dict(kind='implicit', steps=1, plant='nl')],
         bounds='1-2 calls along a sampled loop, any desired controls; the last state on the boundary of a constraint; any control the optimiser may return')
def boundary(ctx, kind, steps, cons=('aff', ), plant='conc', m=1, jit=True):
    """On the boundary of a constraint an ASIF filter never returns a control that drives the system out of it."""
    sp = Spec(ctx, n=2, m=m, plant=plant, cons=cons, clo=-1, chi=1, xmax=3, drift=plant != 'sym', fixedw=plant == 'conc')
    kw = dict(jit_enable=jit, solver_exception=True)
    rta = GenExplicitASIF(sp, **kw) if kind == 'explicit' else GenImplicitASIF(sp, backup_window=0.5, **kw)
    x, lp = sp.x, Loop(sp)
    for t in range(steps):
        d = [ctx.real(f'd{t}_{i}', -1, 1) for i in range(m)]
        if t == steps - 1:
            i = ctx.choice('edge', len(cons)) if len(cons) > 1 else 0
            ctx.assume(And(sp.h(i, x) >= 0, sp.h(i, x) <= 1e-9))

        rows = []

        def q(call):
            from vf import stubs
            rows[:] = call.rows(d)
            ctx.assume(And([v >= 0 for v in rows]))
            return stubs.qp_result(call, d, ())

        ctx.qp_handler = q
        try:
            u = vals(rta.filter_control(nparr(x), sp.dt, nparr(d)))
        except R.utils.SolverError:
            return
        rate = dot(sp.gradh(i, x), add(sp.f(x), matvec(sp.g(x), u))) if t == steps - 1 else None
        if rate is not None:
            rate = rate + A(sp.h(i, x))     # the second term is at most 1e-9
            ctx.check(rate >= -0.01, hint=qp.same(rate, rows) if ctx.symbolic else None, label= 'the filtered control does not drive the system out of the constraint')
        x = lp.step(x, u)


@harness('C26', quick=[dict(kind='esim', steps=3, dt=0.5, method='RK45'), dict(kind='esim', steps=2, dt=1.0, method='RK45'), dict(kind='isim', steps=5, dt=0.5), dict(kind='isim', steps=3, dt=1.0), dict(kind='isim', steps=2, dt=0.5, method='RK45')],
         thorough=[dict(kind='esim', steps=6, dt=0.5, method='RK45'), dict(kind='isim', steps=4, dt=0.5)],
         bounds='1d integrator: positions in [-20,0], velocities in [-3,3], any desired accelerations in [-2,2]; closed loops of 2-3 (thorough 6) calls')
def closed_integrator(ctx, kind, steps, dt, method='Euler'):
    """The shipped 1d docking switching filters never let the vehicle pass the docking position (plant: point mass, exact or Euler motion)."""
    cls = R.integrator_1d.Integrator1dDockingExplicitSwitchingRTA if kind == 'esim' else R.integrator_1d.Integrator1dDockingImplicitSwitchingRTA
    rta = cls(integration_method=method)
    p, v = ctx.real('p', -20, 0), ctx.real('v', -3, 3)
    q = 0.5 if method == 'RK45' else 0.0
    move = lambda p, v, u: (p + v * dt + q * u * dt * dt, v + u * dt)
    if kind == 'esim':
        ctx.assume(-2 * p - v * v >= 0)
    else:
        a, b = p, v
        for _ in range(int(round(2 / dt)) + 1):
            a, b = move(a, b, -1.0)
            ctx.assume(a <= 0)
    for t in range(steps):
        d = ctx.real(f'd{t}', -2, 2)
        u = val(rta.filter_control(nparr([p, v]), dt, nparr([d])))
        p, v = move(p, v, u)
        stop = -2 * p - v * v >= -TOL if kind == 'esim' else None
        if kind == 'esim':
            ctx.check(stop, 'the vehicle can still stop in time')
        ctx.check(p <= TOL, 'the vehicle does not pass the docking position', hint=stop)     # p <= TOL / 2 - v^2 / 2
