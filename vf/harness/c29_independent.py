"""Several filters in one process"""
from vf.env import R
from vf.gen import *
from vf.harness import c13_discrete, c16_live, c22_docking, c23_inspection
from vf.harness.c04_simplex import Ref, apply_op, fresh_inputs, one_call
from vf.harness.c04_simplex import build as simplex
from vf.harness.c14_constraints import P, poly
from vf.lib import *
from vf.registry import harness


@harness('C29', quick=[dict(kind='explicit', latch=(0, 0)), dict(kind='explicit', latch=(1.0, 0.5), jit=False), dict(kind='implicit', latch=(0, 0)), dict(kind='implicit', latch=(0, 1.0), jit=False),
                       dict(kind='explicit', latch=(1.0, 0), stateful=True), dict(kind='explicit', latch=(1.0, 1.0), calls=6), dict(kind='explicit', latch=(0.5, 1.0), calls=6, jit=False, ops=['none', 'reset']), dict(kind='implicit', latch=(1.0, 1.0), calls=6), dict(kind='implicit', latch=(0, 0), stateful=True), dict(kind='explicit', latch=(0.5, 0.5), ops=['reset', 'none']),
                       dict(kind='explicit', latch=(1.0, 1.0), ops=['disable', 'enable']), dict(kind='explicit', latch=(0, 0), ops=['params', 'toggle0']), dict(kind='implicit', latch=(0, 0), ops=['newparams', 'reset'], stateful=True)],
         thorough=[dict(kind='explicit', latch=(1.0, 0.5), calls=8), dict(kind='implicit', latch=(0.5, 1.5), calls=8)],
         bounds='two filters of one class with different plants, bounds, windows, latch times, constraints and backup laws; calls A B A B (A B), thorough eight calls, with arbitrary states and desired controls, changes of B in between')
def simplex_pair(ctx, kind, latch, jit=True, stateful=False, ops=('none', 'none', 'none', 'none'), calls=4):
    """Switching filters: two filters of the same class used in turn each decide as if they were alone, whatever is done to the other."""
    pair = []
    for k, (plant, lim, window) in enumerate((('int', 1, 0.5), ('damp', 2, 1.0))):
        c = Named(ctx, 'AB'[k])
        sp = Spec(c, n=2, m=1, plant=plant, cons=('aff', ), clo=None if stateful else -lim, chi=None if stateful else lim, stateful=stateful, fixedw=kind == 'implicit')
        s0 = c.real('s0', -1, 1) if stateful else None
        rta = simplex(sp, kind, window, jit_enable=jit, latch_time=latch[k], backup_controller=sp.controller(s0))
        pair.append((c, sp, rta, Ref(sp, kind, window, latch[k], s0)))
    for k in range(calls):
        c, sp, rta, ref = pair[k % 2]
        x, d = fresh_inputs(c, sp, k // 2)
        one_call(ctx, rta, ref, x, d, 0.5)
        if k % 2:
            apply_op(c, ops[k // 2] if k // 2 < len(ops) else 'none', rta, ref, sp, k)
        for _, _, r, f in pair:
            ctx.check(bool(r.intervening) == bool(f.intervening and f.enable) or not f.enable, 'each filter reports its own intervention')
            if f.s is not None:
                ctx.close(r.backup_controller.now(), [f.s], 'each backup controller keeps its own state')
    ctx.check(pair[0][2].enable, 'the first filter is still enabled')


@harness('C29', quick=[dict(kind=k, change=c, other=o, jit=j, cons=['aff']) for k, c, o, j in (('explicit', 'none', 'before', True), ('explicit', 'params', 'after', True), ('explicit', 'none', 'last', True), ('explicit', 'off', 'last', False), ('explicit', 'direct', 'last', True))
                       if c != 'off' and c != 'params'] +
         [dict(kind=k, change=c, other=o, jit=j) for k, c, o, j in (('explicit', 'params', 'after', True), ('explicit', 'off', 'last', False), ('implicit', 'none', 'last', True), ('implicit', 'params', 'after', False), ('implicit', 'off', 'last', True))] +
         [dict(kind='implicit', change='none', other=o, cons=['aff'], stateful=True, nd=0) for o in ('after', 'last')],
         bounds='a second filter of the same class with other dynamics, constraints, bounds and window is built, used, changed, disabled and reset before, between or after; arbitrary states and controls')
def asif_pair(ctx, **kw):
    """Optimisation filters: the program a filter solves is its own, whatever other filters of the same class exist and are used."""
    c16_live.live_case(ctx, **kw)


@harness('C29', quick=[dict(other='before', xw=True), dict(other='after', live=[0]), dict(other='after', jit=False, xw=True), dict(other='before', jit=False, lo=None, hi=None)],
         bounds='as asif_pair, for discrete-time filters')
def discrete_pair(ctx, **kw):
    """Discrete-time filters: the program a filter solves is its own, whatever other filters of the same class exist and are used."""
    c13_discrete.discrete_case(ctx, toggles=False, **kw)


@harness('C29', quick=[dict(jit=True), dict(jit=False)], bounds='limits and states in [-6,6]; pairs of constraints, strengthening functions and backup controllers')
def parts(ctx, jit):
    """Constraints, strengthening functions and backup controllers of one class: parameters, bias, enabled flag, subsampling options and
    internal state of one are its own."""

    class Bare(R.constraint.ConstraintModule):

        def _compute(self, state, params):
            return state[0] + params.get('c', 0.0)

    class BareDirect(R.constraint.DirectInequalityConstraint):

        def ineq_weight(self, state, params):
            return jarr([1.0])

        def ineq_constant(self, state, params):
            return params.get('c', 0.0)

    x, c, z = ctx.real('x', -6, 6), ctx.real('c', -6, 6), ctx.real('z', -3, 3)
    w = ctx.real('w', -6, 6)
    st = jarr([x, w])
    a, b = Bare(jit_enable=jit), Bare(jit_enable=jit)
    a.params['c'] = pj(c)
    a.bias, a.enabled = 0.5, False
    ctx.close(val(b(st, b.params)), x, 'parameters set for one constraint do not reach another')
    ctx.check(b.enabled and b.bias == 0, 'switching one constraint off leaves the other on')
    ctx.close(val(a(st, a.params)), x + c + 0.5, 'a constraint follows its own parameters')
    ctx.check('c' not in Bare(jit_enable=jit).params, 'a new constraint starts without parameters')
    e, f = BareDirect(params={'c': pj(c)}), BareDirect(params={})
    e.enabled = False
    ctx.check(f.enabled and 'c' not in f.params and BareDirect().params is not BareDirect().params, 'direct constraints are independent of one another')
    s, t = Bare(num_check_all=3, skip_length=2, keep_last=True), Bare()
    ctx.check((t.subsample_config.num_check_all, t.subsample_config.skip_length, t.subsample_config.keep_last) == (-1, 1, False), 'subsampling options belong to one constraint')
    s.subsample_config.skip_length = 5
    ctx.check(t.subsample_config.skip_length == 1, 'subsampling options belong to one constraint')
    L, M = ctx.real('L', 0, 6), ctx.real('M', 0, 6)
    for name, h in (('ConstraintMaxStateLimit', lambda v, x: v - x), ('ConstraintMinStateLimit', lambda v, x: x - v), ('ConstraintMagnitudeStateLimit', lambda v, x: v * v - x * x)):
        p, q = (getattr(R.constraint, name)(limit_val=pj(v), state_index=i, jit_enable=jit) for v, i in ((L, 0), (M, 1)))
        ctx.close([val(p(st, p.params)), val(q(st, q.params))], [h(L, x), h(M, w)], 'each constraint uses its own limit')
        q.params['limit_val'] = pj(c)
        ctx.close([val(p(st, p.params)), val(q(st, q.params))], [h(L, x), h(c, w)], 'each constraint uses its own limit')
    k1, k2 = P([0, 1, 2]), P([0, 3])
    ctx.close([val(k1(pj(z))), val(k2(pj(z)))], [poly([0, 1, 2], z), poly([0, 3], z)], 'strengthening functions keep their own coefficients')
    sp = Spec(ctx, n=2, m=1, plant='int', cons=('aff', ), stateful=True)
    c1, c2 = sp.controller(ctx.real('s1', -1, 1)), sp.controller(ctx.real('s2', -1, 1))
    y = [ctx.real(f'y{i}', -3, 3) for i in range(2)]
    u = vals(c1.generate_control(jarr(y), 0.5))
    ctx.close(u, sp.backup(y, ctx.real('s1', -1, 1)), 'each controller uses its own state')
    ctx.close(c2.now(), [ctx.real('s2', -1, 1)], 'each backup controller keeps its own state')
    ctx.close(vals(c2.generate_control(jarr(y), 0.5)), sp.backup(y, ctx.real('s2', -1, 1)), 'each controller uses its own state')
    c1.reset()
    ctx.close(c2.now(), [sp.next_s(y, ctx.real('s2', -1, 1))], 'each backup controller keeps its own state')
    ctx.close(c1.now(), [ctx.real('s1', -1, 1)], 'reset restores the own initial state')


@harness('C29', quick=[dict(what='docking_constraints', dim=d, kind=k, custom=c) for d, k, c in ((2, 'easif', False), (3, 'isim', True), (3, 'iasif', False))] +
         [dict(what='docking_dynamics', dim=d, kind=k, custom=c, method=me) for d, k, c, me in ((2, 'easif', False, None), (3, 'easif', True, None), (2, 'isim', True, 'Euler'), (3, 'esim', False, 'Euler'))] +
         [dict(what='inspection_constraints', kind=k, custom=True, group='simple', nd=n) for k, n in (('1v1', 1), ('discrete', 1), ('3d', 2))] +
         [dict(what='inspection_dynamics', kind=k, custom=c, nd=n) for k, c, n in (('1v1', False, 1), ('3d', True, 2))],
         bounds='as in the checks of C22 and C23 that are repeated here')
def shipped(ctx, what, **kw):
    """Shipped examples: dynamics and constraints of a filter are those it was built for, also when another filter of its class was built for
    other values afterwards."""
    getattr(c22_docking if 'docking' in what else c23_inspection, what)(ctx, other=True, **kw)
