"""Every kind of filter: bounds, pass-through when disabled, call records"""
import warnings

from vf.env import R
from vf.gen import *
from vf.harness.c01_base import Arbitrary, bounds
from vf.lib import *
from vf.registry import harness

KINDS = ('base', 'esim', 'isim', 'easif', 'iasif', 'dasif', 'cascade', 'combined', 'deltav')


class Chain(R.base.CascadedRTA):

    def __init__(self, rtas, **kw):
        self._rtas = rtas
        super().__init__(**kw)

    def _setup_rta_list(self):
        return list(self._rtas)


class Fixed(R.base.RTAModule):
    """a strategy computing  control + shift  (and claiming an intervention when told to)"""

    def __init__(self, shift, claim=False, **kw):
        super().__init__(**kw)
        self.shift, self.claim, self.seen = shift, claim, []

    def compute_filtered_control(self, input_state, step_size, control_desired):
        self.seen.append((vals(input_state), step_size, vals(control_desired)))
        self.intervening = self.claim
        return nparr(add(vals(control_desired), self.shift))


LQR = np.diag([3.0, 2, 4, 5, 3, 2, 1, 2, 1, 4, 2, 3]) * 2e3
for _i in range(3):
    for _j in range(12):
        LQR[3 + _i, _j] = LQR[3 + _i, _j] or ((_i + 2 * _j) % 5 - 2) * 1e3


def deltav(**kw):
    """the delta-v limiter with an arbitrary fixed gain instead of the Riccati solution"""
    import scipy.linalg as sl
    mod = R.inspection_1v1
    real = sl.solve_continuous_are
    sl.solve_continuous_are = lambda *a, **k: LQR
    try:
        return mod.SwitchingDeltaVLimitRTA(n_steps=kw.pop('n_steps', 2), **kw)
    finally:
        sl.solve_continuous_are = real


def make(ctx, kind, lo=None, hi=None, m=1, infeasible=False, jit=True, shift=None):
    """(filter, state, number of controls)"""
    kw = {}
    if lo is not None:
        kw['control_bounds_low'] = lo
    if hi is not None:
        kw['control_bounds_high'] = hi
    if kind == 'base':
        return Arbitrary(ctx, m, **kw), [ctx.real('x0'), ctx.real('x1')], m
    if kind == 'cascade':
        return Chain([Fixed([ctx.real(f's{i}', -9, 9) for i in range(m)]), Fixed([ctx.real(f't{i}', -9, 9) for i in range(m)])], **kw), [ctx.real('x0'), ctx.real('x1')], m
    if kind == 'combined':
        inner = Fixed([ctx.real(f's{i}', -9, 9) for i in range(3)])
        kw.setdefault('control_bounds_low', None)
        kw.setdefault('control_bounds_high', None)
        return R.inspection_3d.CombinedInspectionRTA(num_deputies=2, deputy_rta=inner, **kw), [ctx.real(f'x{i}', -50, 50) for i in range(13)], 6
    if kind == 'deltav':
        kw.setdefault('control_bounds_low', None)
        kw.setdefault('control_bounds_high', None)
        return deltav(**kw), [ctx.real(f'x{i}', -50, 50) for i in range(8)], 3
    sp = Spec(ctx, n=2, m=m, plant='conc' if m > 1 else 'int', cons=('aff', ), dt=1.0, xmax=3)
    if kind in ('esim', 'isim'):
        cls = GenExplicitSimplex if kind == 'esim' else GenImplicitSimplex
        if kind == 'isim':
            kw['backup_window'] = 1.0
        return cls(sp, jit_enable=jit, **kw), sp.x, m
    direct = OrderedDict()
    if infeasible:
        direct = OrderedDict([('a', Direct([1.0] + [0.0] * (m - 1), 1.0, 0.0)), ('b', Direct([-1.0] + [0.0] * (m - 1), 0.0, 0.0))])
    if kind == 'easif':
        return GenExplicitASIF(sp, direct=direct, jit_enable=jit, **kw), sp.x, m
    if kind == 'iasif':
        return GenImplicitASIF(sp, direct=direct, backup_window=1.0, jit_enable=jit, **kw), sp.x, m
    if kind == 'dasif':
        return GenDiscreteASIF(sp, jit_enable=jit, **kw), sp.x, m
    raise ValueError(kind)


def optimizers(ctx, infeasible=False):
    """symbolic optimisers: any point meeting the constraints handed over (or the report that there is none)"""
    if not ctx.symbolic:
        return
    from vf import npsym, stubs

    def q(call):
        if infeasible:
            raise ValueError(stubs.INCONSISTENT)
        x = [ctx.fresh('qp', -50, 50) for _ in range(call.n)]
        return stubs.qp_result(call, x)

    def mn(call):
        x = [ctx.fresh('sl', -50, 50) for _ in range(call.n)]
        for r in call.bound_rows(x):
            ctx.assume(r >= 0)
        return stubs.OptRes(npsym.as_symnd(list(x)), True)

    ctx.qp_handler, ctx.min_handler = q, mn


def quiet(fn, *a):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn(*a)


@harness('C01', quick=[dict(kind=k, form=f, m=m, infeasible=i) for k, f, m, i in (
    ('esim', 'list', 2, False), ('esim', 'high', 1, False), ('isim', 'scalar', 1, False), ('isim', 'lowlist', 2, False), ('easif', 'list', 2, True), ('easif', 'scalar', 1, True), ('easif', 'highlist', 2, True),
    ('easif', 'array', 2, False), ('iasif', 'list', 2, True), ('iasif', 'low', 1, True), ('iasif', 'scalar', 2, False), ('dasif', 'list', 2, False), ('dasif', 'high', 1, False),
    ('dasif', 'array', 2, False), ('cascade', 'list', 2, False), ('cascade', 'scalar', 1, False), ('combined', 'scalar', 6, False), ('combined', 'list', 6, False), ('deltav', 'scalar', 3, False),
    ('deltav', 'list', 3, False))] + [dict(kind=k, form=f, m=m, infeasible=False, io=io) for k, f, m, io in (('base', 'scalar', 2, 'int'), ('esim', 'scalar', 1, 'int'), ('isim', 'list', 2, 'int'), ('easif', 'list', 2, 'int'), ('dasif', 'scalar', 2, 'int'), ('cascade', 'list', 2, 'int'), ('combined', 'scalar', 6, 'int'), ('deltav', 'scalar', 3, 'int'), ('base', 'list', 2, 'jax'), ('esim', 'list', 2, 'jax'), ('iasif', 'list', 2, 'jax'), ('dasif', 'list', 2, 'jax'), ('cascade', 'scalar', 2, 'jax'))],
         bounds='desired controls in [-20,20] (float or jax arrays; whole numbers out of three vectors as integer arrays), bound values symbolic in [-5,5], given as number, list, array or one-sided')
def bounds_everywhere(ctx, kind, form, m, infeasible, io='np'):
    """filter_control of every filter kind: each element of the returned control lies within its bounds, also when the optimisation is
    infeasible and the desired control is passed on."""
    lo, hi, los, his = bounds(ctx, form, m)
    optimizers(ctx, infeasible)
    rta, x, m = make(ctx, kind, lo, hi, m, infeasible)
    d = wants(ctx, 'd', m, io, 20)
    out = vals(quiet(rta.filter_control, given(x, 'jax' if io == 'jax' else 'np'), 1.0, given(d, io)))
    ctx.check(len(out) == m, 'one control per actuator')
    for i in range(m):
        if los[i] is not None:
            ctx.check(out[i] >= los[i] - 1e-9, 'returned control respects the lower bound')
        if his[i] is not None:
            ctx.check(out[i] <= his[i] + 1e-9, 'returned control respects the upper bound')
    ctx.close(rta.control_actual, out, 'the recorded actual control is the returned one')
    if kind == 'base':
        ctx.close(out, [clipv(ctx.real(f'raw{i}', -20, 20), los[i], his[i]) for i in range(m)], 'returned control is the computed control limited to the bounds')


def sides(ctx, kind, m):
    if kind in ('base', 'esim', 'dasif', 'cascade', 'deltav', 'easif'):
        return -1.0, 1.0
    return None, None


@harness('C02', quick=[dict(kind=k, m=m) for k, m in (('base', 2), ('esim', 1), ('isim', 1), ('easif', 2), ('iasif', 1), ('dasif', 2), ('cascade', 2), ('combined', 6), ('deltav', 3))] +
         [dict(kind=k, m=m, io=io) for k, m, io in (('base', 2, 'int'), ('esim', 1, 'jax'), ('dasif', 2, 'int'), ('cascade', 2, 'jax'))],
         bounds='desired controls in [-20,20], also far outside the bounds, as float, integer or jax arrays; an enabled call, a disabled one, and an enabled one again')
def disabled_everywhere(ctx, kind, m, io='np'):
    """A disabled filter returns exactly the desired control, reports no intervention, and leaves the state of the filter alone, so that
    switching it on again resumes filtering."""
    lo, hi = sides(ctx, kind, m)
    optimizers(ctx)
    rta, x, m = make(ctx, kind, lo, hi, m)
    d0 = [ctx.real(f'c{i}', -20, 20) for i in range(m)]
    quiet(rta.filter_control, nparr(x), 1.0, nparr(d0))
    rta.enable = False
    d = wants(ctx, 'd', m, io, 20)
    out = vals(rta.filter_control(given(x, 'jax' if io == 'jax' else 'np'), 1.0, given(d, io)))
    ctx.close(out, d, 'a disabled filter returns the desired control unchanged', tol=1e-12)
    ctx.check(not rta.intervening, 'a disabled filter reports no intervention')
    ctx.close(rta.control_actual, d, 'the recorded actual control is the desired control', tol=1e-12)
    ctx.close(rta.control_desired, d, 'the recorded desired control', tol=1e-12)
    ctx.check(not rta.generate_info()['intervening'] and not rta.generate_info()['enable'], 'the report shows a disabled filter')
    rta.enable = True
    e = [ctx.real(f'e{i}', -20, 20) for i in range(m)]
    out = vals(quiet(rta.filter_control, nparr(x), 1.0, nparr(e)))
    if lo is not None:
        ctx.check(And([v <= 1.0 + 1e-9 for v in out] + [v >= -1.0 - 1e-9 for v in out]), 'after switching on again the control is filtered')


@harness(['C03', 'C21'], quick=[dict(kind=k, m=m, enable=e) for k, m, e in (('base', 2, True), ('base', 2, False), ('esim', 1, True), ('isim', 1, True), ('easif', 2, True), ('easif', 2, False), ('iasif', 1, True),
                                                                   ('dasif', 2, True), ('dasif', 1, False), ('cascade', 2, True), ('combined', 6, True), ('combined', 6, False), ('deltav', 3, True), ('esim', 1, False))] +
         [dict(kind=k, m=m, enable=e, io=io) for k, m, e, io in (('base', 2, True, 'int'), ('base', 2, False, 'int'), ('esim', 1, True, 'int'), ('easif', 2, True, 'int'), ('cascade', 2, True, 'int'), ('combined', 6, True, 'int'),
                                                                ('deltav', 3, True, 'int'), ('base', 2, True, 'jax'), ('isim', 1, True, 'jax'), ('dasif', 2, True, 'jax'), ('cascade', 2, False, 'jax'))],
         bounds='two calls with arbitrary states and controls (float, integer or jax arrays); bounds [-1,1] where the kind takes them')
def records(ctx, kind, m, enable, io='np'):
    """After filter_control the recorded desired control is what was passed in and the recorded actual control is what was returned; the
    caller's arrays are untouched and neither side can change the record through an array it holds."""
    lo, hi = sides(ctx, kind, m)
    optimizers(ctx)
    rta, x, m = make(ctx, kind, lo, hi, m)
    rta.enable = enable
    for k in range(2):
        d = wants(ctx, f'd{k}_', m, io, 20)
        sa, da = given(x, 'jax' if io == 'jax' else 'np'), given(d, io)
        ret = quiet(rta.filter_control, sa, 1.0, da)
        out = vals(ret)
        ctx.close(sa, x, 'the caller\'s state is not modified', tol=1e-12)
        ctx.close(da, d, 'the caller\'s desired control is not modified', tol=1e-12)
        ctx.close(rta.control_desired, d, 'the recorded desired control is the one passed in', tol=1e-12)
        ctx.close(rta.control_actual, out, 'the recorded actual control is the one returned', tol=1e-12)
        if kind == 'base' and enable:
            ctx.close(out, [clipv(ctx.real(f'raw{i}', -20, 20), lo, hi) for i in range(m)], 'the returned control is the computed one within the bounds')
        info = rta.generate_info()
        ctx.close(info['control_desired'], d, 'the report shows the desired control', tol=1e-12)
        ctx.close(info['control_actual'], out, 'the report shows the actual control', tol=1e-12)
        ctx.check(bool(info['intervening']) == bool(rta.intervening) and info['enable'] is rta.enable, 'the report shows the flags')
        # hostile caller
        for i in range(m):
            if io != 'jax':
                da[i] = 7.0
            ret[i] = 9.0
        ctx.close(rta.control_desired, d, 'the recorded desired control is the record\'s own', tol=1e-12)
        ctx.close(rta.control_actual, out, 'the recorded actual control is the record\'s own', tol=1e-12)
