"""Simplex filters over call histories, against a reference state machine"""
from vf.env import R
from vf.gen import *
from vf.lib import *
from vf.registry import harness

CLASSES = {'explicit': GenExplicitSimplex, 'implicit': GenImplicitSimplex}


class Ref:
    """what a simplex filter has to do, call by call"""

    def __init__(self, sp, kind, window=0, latch=0, s0=None):
        self.sp, self.kind, self.window, self.latch, self.s0 = sp, kind, window, latch, s0
        self.pars = [dict(p) for p in sp.pars]
        self.en = [True] * len(sp.pars)
        self.reset()

    def reset(self):
        self.intervening, self.elapsed, self.s, self.enable = False, 0.0, self.s0, True

    def bad(self, x, d, dt):
        sp = self.sp
        x = sp.step(x, d, dt)
        pts = [x]
        s = self.s
        if self.kind == 'implicit':
            for _ in range(int(round(self.window / dt, 6))):
                u = sp.backup(x, s)
                s = None if s is None else sp.next_s(x, s)
                x = sp.step(x, u, dt)
                pts.append(x)
        return Or([sp.h(i, p, self.pars) < 0 for p in pts for i in range(len(self.pars)) if self.en[i]])

    def call(self, x, d, dt, observed):
        """returns (expected intervening, expected control); `observed` is the flag the code reports (checked by the caller)"""
        if not self.enable:
            self.intervening = False
            self.elapsed = 0.0
            return False, d
        d = self.sp.clip(d)
        if self.intervening and self.elapsed < self.latch:
            self.elapsed += dt
            exp = True
        else:
            self.elapsed = 0.0
            exp = self.bad(x, d, dt)
            self.intervening = observed
        if self.intervening:
            u = self.sp.backup(x, self.s)
            if self.s is not None:
                self.s = self.sp.next_s(x, self.s)
            return exp, u
        return exp, d


def build(sp, kind, window=0, **kw):
    if kind == 'implicit':
        kw['backup_window'] = window
    return CLASSES[kind](sp, **kw)


def fresh_inputs(ctx, sp, k, dmax=3, io='np'):
    x = [ctx.real(f'x{k}_{i}', -3, 3) for i in range(sp.n)]
    return x, wants(ctx, f'd{k}_', sp.m, io, dmax)


def one_call(ctx, rta, ref, x, d, dt, tag='', io='np'):
    out = vals(rta.filter_control(given(x, 'jax' if io == 'jax' else 'np'), dt, given(d, io)))
    obs = bool(rta.intervening)
    exp, u = ref.call(x, d, dt, obs)
    ctx.iff(obs, exp, 'the backup takes over exactly when required' + tag)
    ctx.close(out, u, 'the returned control is the backup control or the bounded desired control' + tag)
    return obs


@harness(['C04', 'C17'], quick=[dict(jit=j, plant=p, bounded=b, bias=bb) for j in (True, False) for p, b, bb in
                                (('sym', True, 0), ('conc', False, 0.25), ('int', True, -0.5))] + [dict(jit=True, plant='conc', bounded=True, bias=0, m=2, n=3), dict(jit=True, plant='conc', bounded=True, bias=0, ncon=3), dict(jit=False, plant='nl', bounded=True, bias=0.25, ncon=4), dict(jit=True, plant='nl', bounded=False, bias=0, m=2)],
         bounds='one call; linear plants (symbolic 2x2/2x1 in [-2,2], or fixed, or with bilinear drift and state-dependent input), 2-4 affine or quadratic constraints with symbolic '
         'coefficients, every enabled/disabled combination, states in [-3,3], desired control in [-3,3]')
def explicit_decision(ctx, jit, plant, bounded, bias, n=2, m=1, ncon=2):
    """ExplicitSimplexModule.filter_control: the backup control is returned (and reported) exactly when the state predicted for the
    control that would be applied violates an enabled constraint; otherwise the desired control limited to the bounds."""
    sp = Spec(ctx, n=n, m=m, plant=plant, clo=-1 if bounded else None, chi=1 if bounded else None, con_kw=[{'bias': bias}, {}, {}, {'bias': -bias}][:ncon], cons=['aff', 'quad', 'aff', 'aff'][:ncon])
    rta = build(sp, 'explicit', jit_enable=jit)
    ref = Ref(sp, 'explicit')
    for i, c in enumerate(rta.constraints.values()):
        c.enabled = ref.en[i] = ctx.flag(f'en{i}')
    x, d = fresh_inputs(ctx, sp, 0)
    one_call(ctx, rta, ref, x, d, sp.dt)


@harness(['C05', 'C17'], quick=[dict(jit=True, window=1.0, bounded=False, stateful=False), dict(jit=False, window=1.0, bounded=False, stateful=True),
                                dict(jit=True, window=1.2, bounded=False, stateful=False, jd={'integrate': True}),
                                dict(jit=True, window=0.5, bounded=True, stateful=False, plant='int'),
                                dict(jit=True, window=0.25, bounded=True, stateful=False), dict(jit=True, window=0.9, bounded=False, stateful=False), dict(jit=False, window=1.0, bounded=True, stateful=True, ncon=1),
                                dict(jit=True, window=1.5, bounded=False, stateful=False, jd={'pred_state': True}, m=2, n=3),
                                dict(jit=True, window=1.0, bounded=True, stateful=False, jd={'constraint_violation': False, 'integrate': True}, ncon=1), dict(jit=True, window=0.5, bounded=False, stateful=False, ncon=3), dict(jit=False, window=0.5, bounded=False, stateful=False, plant='nl', ncon=1)],
         thorough=[dict(jit=j, window=3.0, bounded=False, stateful=s) for j in (True, False) for s in (True, False)],
         bounds='one call; horizon 0..3 (thorough 6) backup steps of 0.5 s; fixed linear plant with symbolic affine backup law and constraints')
def implicit_decision(ctx, jit, window, bounded, stateful, plant='conc', jd=None, n=2, m=1, ncon=2):
    """ImplicitSimplexModule.filter_control: the backup control is returned exactly when the trajectory that applies the bounded desired
    control once and then follows the bounded backup law for the whole window leaves an enabled constraint at any point."""
    s0 = ctx.real('s0', -1, 1) if stateful else None
    sp = Spec(ctx, n=n, m=m, plant=plant, clo=-1 if bounded else None, chi=1 if bounded else None, stateful=stateful, cons=('aff', 'quad', 'aff', 'aff')[:ncon])
    rta = build(sp, 'implicit', window, jit_enable=jit, jit_compile_dict=dict(jd or {}), backup_controller=sp.controller(s0))
    ref = Ref(sp, 'implicit', window, 0, s0)
    for i, c in enumerate(rta.constraints.values()):
        c.enabled = ref.en[i] = ctx.flag(f'en{i}')
    x, d = fresh_inputs(ctx, sp, 0)
    one_call(ctx, rta, ref, x, d, sp.dt)


def history(ctx, kind, steps, latch, jit=True, window=0.5, stateful=False, dts=(0.5, ), ops=(), bounded=True, plant='int', same=(), lead=0, lead_bad=False, io='np'):
    """ops: {step: action} performed before the call of that step: 'reset', 'disable', 'enable', 'toggle0', 'params'
    same: {step: earlier step whose state and desired control are given again}; lead: calls before step 0 at one state that is safe (or unsafe)"""
    ops, same = dict(ops), dict(same)
    s0 = ctx.real('s0', -1, 1) if stateful else None
    sp = Spec(ctx, n=2, m=1, plant=plant, cons=('aff', ), clo=-1 if bounded else None, chi=1 if bounded else None, stateful=stateful)
    latch = ctx.real('latch', 0, 2.5) if latch == 'sym' else latch
    rta = build(sp, kind, window, jit_enable=jit, backup_controller=sp.controller(s0), **({} if latch is None else {'latch_time': latch}))
    ref = Ref(sp, kind, window, 0 if latch is None else latch, s0)

    if lead:
        ins = {}
        for b, t in {'alt': ((False, 'p'), (True, 'q'))}.get(lead_bad, ((lead_bad, 'p'), )):
            x, d = ins[b] = fresh_inputs(ctx, sp, t)
            bad = ref.bad(x, sp.clip(d), dts[0])
            ctx.assume(bad if b else Not(bad))
        for k in range(lead):
            x, d = ins[k % 2 == 1 if lead_bad == 'alt' else lead_bad]
            one_call(ctx, rta, ref, x, d, dts[0])
    seen = {}
    for k in range(steps):
        for op in ops.get(k, ()):
            apply_op(ctx, op, rta, ref, sp, k)
        x, d = seen[k] = seen[same[k]] if k in same else fresh_inputs(ctx, sp, k, io=io)
        one_call(ctx, rta, ref, x, d, dts[k % len(dts)], io=io)
        if ref.s is not None:
            ctx.close(rta.backup_controller.now(), [ref.s], 'the backup controller advanced only for controls that were used')


def apply_op(ctx, op, rta, ref, sp, k):
    if op == 'reset':
        rta.reset()
        ref.reset()
        ctx.check(not rta.intervening and rta.enable and rta.control_desired is None and rta.control_actual is None,
                  'reset clears the flags and the recorded controls')
    elif op in ('disable', 'enable'):
        rta.enable = ref.enable = op == 'enable'
    elif op.startswith('toggle'):
        i = int(op[6:])
        c = list(rta.constraints.values())[i]
        ref.en[i] = not ref.en[i]
        c.enabled = ref.en[i]
    elif op.startswith('params'):
        i = int(op[6:] or 0)
        c = list(rta.constraints.values())[i]
        p = {'c': ctx.real(f'nc{k}', -4, 4), 'w': [ctx.real(f'nw{k}{j}', -2, 2) for j in range(sp.n)]}
        ref.pars[i] = {**ref.pars[i], **p}
        sp.set_params(c, i, p)
    elif op.startswith('newparams'):
        i = int(op[9:] or 0)
        c = list(rta.constraints.values())[i]
        p = {'c': ctx.real(f'nc{k}', -4, 4), 'w': [ctx.real(f'nw{k}{j}', -2, 2) for j in range(sp.n)]}
        ref.pars[i] = {**ref.pars[i], **p}
        c.params = {'c': pj(p['c']), 'w': jarr(p['w'])}
    elif op == 'none':
        pass
    else:
        raise ValueError(op)


@harness('C04', quick=[dict(steps=3, latch=0), dict(steps=3, latch=0, jit=False, bounded=False), dict(steps=2, latch=0.5), dict(steps=3, latch=0, stateful=True, bounded=False),
                       dict(steps=2, latch=0, dts=[0.5, 0.2]), dict(steps=3, latch=0, ops=[[1, ['disable']], [2, ['enable']]]), dict(steps=2, latch=0, plant='nl'),
                       dict(steps=2, latch=0, lead=11), dict(steps=1, latch=0, lead=9, lead_bad=True, jit=False), dict(steps=1, latch=0, lead=16, lead_bad='alt'), dict(steps=3, latch=0, same=[[2, 0]]), dict(steps=2, latch=0, stateful=True, bounded=False, same=[[1, 0]]),
                       dict(steps=2, latch=0, io='int'), dict(steps=2, latch=0, io='int', jit=False, plant='nl'), dict(steps=2, latch=0, io='jax'), dict(steps=2, latch=0, io='jax', jit=False)],
         thorough=[dict(steps=5, latch=0), dict(steps=4, latch=0, plant='nl', jit=False), dict(steps=2, latch=0, lead=60), dict(steps=1, latch=0, lead=130, lead_bad='alt')],
         bounds='histories of 2-3 (thorough 5) calls with arbitrary states and desired controls, also repeated ones, after up to 16 (thorough 130) calls at one safe state, one unsafe state or the two in turn; inputs as float, integer or jax arrays')
def explicit_history(ctx, **kw):
    """ExplicitSimplexModule: every call of a history decides on the state predicted for this call's control, whatever happened before."""
    history(ctx, kind='explicit', **kw)


@harness('C05', quick=[dict(steps=2, latch=0, window=0.5), dict(steps=2, latch=0, window=1.0, jit=False, bounded=False), dict(steps=3, latch=0, window=0.5, bounded=False, stateful=True),
                       dict(steps=2, latch=0, dts=[0.5, 0.25], window=0.5, bounded=False), dict(steps=2, latch=0, window=0.5, plant='nl', bounded=False),
                       dict(steps=1, latch=0, window=0.5, lead=11), dict(steps=1, latch=0, window=0.5, lead=12, lead_bad='alt', bounded=False), dict(steps=1, latch=0, window=0.5, lead=9, lead_bad=True, jit=False, bounded=False), dict(steps=2, latch=0, window=0.5, bounded=False, stateful=True, same=[[1, 0]]),
                       dict(steps=2, latch=0, window=0.5, bounded=False, io='int'), dict(steps=1, latch=0, window=0.5, io='jax'), dict(steps=1, latch=0, window=0.5, io='jax', jit=False, bounded=False)],
         thorough=[dict(steps=4, latch=0, window=1.0, bounded=False), dict(steps=1, latch=0, window=1.0, lead=40, bounded=False)],
         bounds='histories of 2-3 (thorough 4) calls with arbitrary states and desired controls, also repeated ones, after up to 12 (thorough 40) calls at one safe state, one unsafe state or the two in turn; inputs as float, integer or jax arrays')
def implicit_history(ctx, **kw):
    """ImplicitSimplexModule: every call of a history decides on the backup trajectory of this call, whatever happened before."""
    history(ctx, kind='implicit', **kw)


@harness('C05', quick=[dict(window=w, dt=dt, jit=j) for w, dt, j in ((3.0, 0.1, True), (0.3, 0.1, True), (10.0, 0.25, True), (2.0, 0.05, False), (60.0, 1.0, True), (0.7, 0.1, True), (1.0, 0.3, True))] +
         [dict(window=25.0, dt=0.25, jit=True, jd={'integrate': True, 'pred_state': True})],
         thorough=[dict(window=200.0, dt=0.5, jit=True)],
         bounds='windows of 3 to 100 (thorough 400) backup steps, fixed stable plant, symbolic backup offset and affine constraint')
def implicit_long(ctx, window, dt, jit, jd=None):
    """ImplicitSimplexModule with long windows: the decision covers the backup trajectory up to the end of the window."""
    sp = Spec(ctx, n=2, m=1, plant='damp', cons=('aff', ), dt=dt)
    rta = build(sp, 'implicit', window, jit_enable=jit, jit_compile_dict=dict(jd or {}), backup_controller=sp.controller())
    ref = Ref(sp, 'implicit', window)
    x, d = fresh_inputs(ctx, sp, 0)
    one_call(ctx, rta, ref, x, d, dt)


@harness('C06', quick=[dict(kind='explicit', steps=4, latch=lt, dts=dts) for lt, dts in ((0, [0.5]), (0.5, [0.5]), (1.0, [0.5]), (0.75, [0.5]), (0.25, [0.5]), (0.75, [0.5, 0.25]))] +
         [dict(kind='implicit', steps=3, latch=0.5, dts=[0.5]), dict(kind='explicit', steps=4, latch=1.0, dts=[0.5], jit=False),
          dict(kind='explicit', steps=4, latch=1.0, dts=[0.5], ops=[[2, ['disable']], [3, ['enable']]]),
          dict(kind='explicit', steps=5, latch=1.0, dts=[0.5], ops=[[2, ['reset']]]),
          dict(kind='explicit', steps=3, latch=5.0, dts=[0.5], stateful=True, bounded=False),
          dict(kind='explicit', steps=3, latch=None, dts=[0.5]), dict(kind='implicit', steps=3, latch=None, dts=[0.5]), dict(kind='explicit', steps=5, latch='sym', dts=[0.5, 0.375]), dict(kind='explicit', steps=4, latch='sym', dts=[0.25, 1.0, 0.375, 0.125], ops=[[3, ['disable']]]), dict(kind='implicit', steps=3, latch='sym', dts=[0.25, 0.5]),
          dict(kind='explicit', steps=2, latch=6.0, dts=[0.5], lead=12, lead_bad=True), dict(kind='explicit', steps=2, latch=20.0, dts=[0.5], lead=18, lead_bad=True), dict(kind='explicit', steps=2, latch=1.0, dts=[0.5], lead=10, lead_bad=True), dict(kind='implicit', steps=1, latch=5.0, dts=[0.5], lead=11, lead_bad=True)],
         thorough=[dict(kind='explicit', steps=6, latch=lt, dts=[0.5]) for lt in (0, 0.5, 1.0, 2.0)] +
         [dict(kind='implicit', steps=5, latch=1.0, dts=[0.5], window=1.0)],
         bounds='histories of up to 5 (thorough 6) calls with arbitrary states and desired controls; also after up to 18 calls at one unsafe state; latch times fixed (0..20 s), left to the default, or symbolic in [0, 2.5] s; steps 0.125-1 s')
def latching(ctx, **kw):
    """Simplex latching: once the backup is engaged it stays engaged until the latch time has elapsed, then the switch is re-evaluated."""
    history(ctx, **kw)


@harness('C07', quick=[dict(kind='implicit', steps=3, latch=0, window=0.5, jit=j, bounded=False) for j in (True, False)] +
         [dict(kind='implicit', steps=2, latch=0, window=1.0, bounded=False), dict(kind='explicit', steps=3, latch=0, bounded=False), dict(kind='explicit', steps=3, latch=1.0, bounded=True),
          dict(kind='implicit', steps=3, latch=1.0, window=0.5, bounded=False, ops=[[2, ['reset']]])] +
         [dict(kind='implicit', steps=3, latch=0, window=0.5, jit=j, bounded=False, stateful='dict') for j in (True, False)] + [dict(kind='explicit', steps=3, latch=0, bounded=False, stateful='dict', ops=[[2, ['reset']]])],
         bounds='histories of 2-3 calls, affine stateful backup law with symbolic initial state (array or dictionary)')
def simplex_controller_state(ctx, **kw):
    """A stateful backup controller advances exactly once per call that uses its control, never through look-ahead simulation."""
    history(ctx, **{'stateful': True, **kw})


@harness('C16', quick=[dict(kind=k, steps=3, latch=0, jit=j, ops=[[1, [a]], [2, [b]]]) for k in ('explicit', 'implicit') for j in (True, False)
                       for a, b in (('toggle0', 'toggle0'), ('params', 'newparams'), ('newparams', 'toggle0'))][:8] +
         [dict(kind='implicit', steps=2, latch=0, jit=True, ops=[[1, ['params']]]), dict(kind='implicit', steps=2, latch=0, jit=True, ops=[[1, ['toggle0']]])] +
         [dict(kind=k, steps=2, latch=0, jit=j, ops=[[1, [a]]], same=[[1, 0]]) for k in ('explicit', 'implicit') for j in (True, False) for a in ('toggle0', 'params', 'newparams')][1::2] +
         [dict(kind='explicit', steps=3, latch=0, ops=[[1, ['toggle0']], [2, ['toggle0', 'params']]], same=[[1, 0], [2, 0]])],
         bounds='histories of 2-3 calls, at new or repeated inputs; parameters replaced by fresh symbolic values or constraint (en|dis)abled between calls')
def simplex_live_changes(ctx, **kw):
    """Changing a constraint's parameters or its enabled flag between calls takes effect on the next call of a simplex filter, jitted or not."""
    history(ctx, **kw)


@harness('C18', quick=[dict(kind='explicit', steps=3, latch=1.0, stateful=True, bounded=False, ops=[[2, ['reset']]]),
                       dict(kind='explicit', steps=4, latch=1.0, ops=[[2, ['reset']]]), dict(kind='explicit', steps=4, latch=1.0, ops=[[3, ['reset']]]),
                       dict(kind='implicit', steps=3, latch=0.5, stateful=True, bounded=False, ops=[[2, ['reset']]]),
                       dict(kind='explicit', steps=3, latch=0.5, ops=[[1, ['disable']], [2, ['reset']]]),
                       dict(kind='implicit', steps=3, latch=0, jit=False, stateful=True, bounded=False, ops=[[1, ['reset']]]),
                       dict(kind='explicit', steps=3, latch=0, stateful=True, bounded=False, ops=[[2, ['reset']]]),
                       dict(kind='implicit', steps=3, latch=0, stateful=True, bounded=False, ops=[[2, ['reset']]]), dict(kind='implicit', steps=3, latch=0, stateful='dict', bounded=False, ops=[[2, ['reset']]]),
                       dict(kind='explicit', steps=3, latch=0.5, stateful=True, bounded=False, ops=[[1, ['disable']], [2, ['reset']]])],
         thorough=[dict(kind='explicit', steps=5, latch=0.5, stateful=True, bounded=False, ops=[[3, ['reset']]])],
         bounds='histories of 3-4 (thorough 5) calls with a reset in between')
def simplex_reset(ctx, **kw):
    """After reset a simplex filter decides as a newly constructed one, whatever happened before."""
    history(ctx, **kw)


@harness('C02', quick=[dict(kind='explicit', steps=3, latch=1.0, ops=[[1, ['disable']], [2, ['enable']]]),
                       dict(kind='implicit', steps=3, latch=0, ops=[[1, ['disable']], [2, ['enable']]]),
                       dict(kind='explicit', steps=2, latch=0, ops=[[0, ['disable']], [1, ['reset']]]),
                       dict(kind='explicit', steps=3, latch=0, stateful=True, bounded=False, ops=[[0, ['disable']], [2, ['enable']]]),
                       dict(kind='explicit', steps=3, latch=0.5, stateful=True, bounded=False, ops=[[1, ['disable']], [2, ['enable']]]),
                       dict(kind='implicit', steps=3, latch=1.0, stateful=True, bounded=False, ops=[[1, ['disable']], [2, ['enable']]]),
                       dict(kind='explicit', steps=2, latch=0, bounded=True, ops=[[0, ['params', 'disable']], [1, ['enable']]])],
         bounds='histories of 2-3 calls')
def simplex_disabled(ctx, **kw):
    """A disabled simplex filter returns the desired control unchanged and reports no intervention; re-enabling resumes filtering."""
    history(ctx, **kw)
