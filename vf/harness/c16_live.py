"""Live changes, resets, controller state and jit for the optimisation filters; cascades"""
import warnings

from vf import qp
from vf.env import R
from vf.gen import *
from vf.harness.c02_calls import Chain, Fixed, deltav, optimizers, quiet
from vf.harness.c08_asif import direct_dict, direct_of, explicit_row, implicit_rows, sens
from vf.lib import *
from vf.registry import harness


def silent(ctx):
    """an optimiser for the calls that only prepare history"""
    if ctx.symbolic:
        from vf import npsym, stubs
        ctx.qp_handler = lambda call: stubs.qp_result(call, list(call.a), ())
        ctx.min_handler = lambda call: (call.cons(call.x0), stubs.OptRes(npsym.as_symnd(list(call.x0)), True))[1]


def prior(ctx, rta, x, dt, m, tag='h'):
    silent(ctx)
    d = [ctx.real(f'{tag}d{i}', -3, 3) for i in range(m)]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            rta.filter_control(nparr(x), dt, nparr(d))
        except R.utils.SolverError:
            pass


def watched(ctx, rta, twin, x, dt, m, tag, lo, hi, row=None):
    """an earlier call whose answer is checked, too: the program's answer (a new filter's, in replay); row: a condition that can be met, but
    not by that call's desired control"""
    d = [ctx.real(f'{tag}d{i}', -3, 3) for i in range(m)]
    if row is not None:
        ctx.assume(And([absv(v) <= 1.0 for v in d]))
        ctx.assume(row.val(d) <= -0.25)
        ctx.assume(sum((absv(c) for c in row.coef), 0.0) >= row.const + 0.25)
    side = lambda b, i: None if b is None else b[i]
    if ctx.symbolic:
        from vf import stubs
        got = []
        ctx.qp_handler = lambda call: (got.append([0.5 * v + 0.125 for v in call.a]), stubs.qp_result(call, got[-1], ()))[1]
        out = vals(rta.filter_control(nparr(x), dt, nparr(d)))
        ctx.check(len(got) == 1, 'one quadratic program is solved per call')
        ctx.close(got[0][:m], [0.5 * v + 0.125 for v in d], 'every call pulls towards its own desired control')
        ctx.close(out, [clipv(v, side(lo, i), side(hi, i)) for i, v in enumerate(got[0][:m])], 'every call of a history returns the answer of its own program')
        return
    a, b = qp.outcome(lambda: rta, x, dt, d), qp.outcome(twin, x, dt, d)
    ctx.check((a is None) == (b is None), 'every call of a history is feasible when it is for a new filter')
    if a is not None:
        ctx.close(a, b, 'every call of a history returns the answer of its own program', tol=1e-5)


def neighbour(ctx, kind, jit, window, stateful, m, at=None):
    """another filter of the same class with other dynamics, constraints, bounds and window, which is used, changed, disabled and reset; at: a state both
    filters are called at"""
    c2 = Constants(ctx)
    sp = Spec(c2, n=2, m=m, plant='damp', cons=('aff', 'quad'), clo=-2, chi=2.5, xmax=3, stateful=stateful)
    kw = dict(direct=direct_dict(direct_of(c2, 2, m)), solver_exception=True, jit_enable=jit)
    if kind == 'explicit':
        rta = GenExplicitASIF(sp, **kw)
    elif kind == 'discrete':
        rta = GenDiscreteASIF(sp, solver_exception=True, jit_enable=jit)
    else:
        rta = GenImplicitASIF(sp, backup_window=2 * window, backup_controller=sp.controller(c2.real('s0', -1, 1) if stateful else None), **kw)
    prior(c2, rta, sp.x, 0.5, m, 'o')
    cs = list(rta.constraints.values())
    sp.set_params(cs[1], 1, {'c': c2.real('nc', -4, 4), 'w': [c2.real(f'nw{j}', -2, 2) for j in range(2)], 'q': c2.real('nq', -2, 2)})
    cs[0].enabled = False
    prior(c2, rta, [c2.real(f'v{i}', -3, 3) for i in range(2)], 0.25, m, 'p')
    rta.enable = False
    prior(c2, rta, sp.x, 0.5, m, 'r')
    if jit:
        rta.reset()
        rta.control_bounds_high = np.array([0.25] * m)
        if at is not None:
            cs[1].enabled = False
            cs[0].enabled = True
        prior(c2, rta, sp.x if at is None else at, 0.5, m, 't')
    return rta


def live_case(ctx, kind, change, jit=True, m=1, window=0.5, cons=('aff', 'aff'), nd=1, stateful=False, steps=1, dt=0.5, dt2=None, same=False, io='np', other=None):
    """history, change, checked call; other: a second filter of the same class that lives next to the first"""
    lim = None if stateful else 1
    sp = Spec(ctx, n=2, m=m, plant='conc', cons=cons, clo=lim and -lim, chi=lim, xmax=3, stateful=stateful)
    s0 = ctx.real('s0', -1, 1) if stateful else None
    dd = [list(v) for v in direct_of(ctx, nd, m)]
    pars = [dict(p) for p in sp.pars]
    en, den = [True] * len(cons), [True] * nd
    new = {'c': ctx.real('nc', -4, 4), 'w': [ctx.real(f'nw{j}', -2, 2) for j in range(2)]}
    ndir = ([ctx.real(f'nda{j}', -2, 2) for j in range(m)], ctx.real('ndb', -3, 3), ctx.real('nde', -1, 1))
    y = sp.x if same else [ctx.real(f'y{i}', -3, 3) for i in range(2)]
    i = 1
    ddf = [tuple(v) for v in dd]
    if change in ('params', 'newparams'):
        pars[i].update(new)
    elif change in ('direct', 'newdirect'):
        ddf[0] = ndir
    elif change in ('off', 'offon'):
        en[i] = change == 'offon'
    elif change == 'diroff':
        den[0] = False
    elif change == 'startoff':
        pass
    dt_call = dt2 or dt
    rows = qp.bound_rows(m, 0, sp.clo, sp.chi)
    if kind == 'explicit':
        for k in range(len(cons)):
            if en[k]:
                rows.append(explicit_row(sp, k, y, pars))
    else:
        pts, S = sens(sp, y, int(round(window / dt_call, 6)), dt_call, s0)
        for k in range(len(cons)):
            if en[k]:
                rows += [r for r, _ in implicit_rows(sp, k, y, pts, S, None, 0, pars)]
    for k, (a, b, e) in enumerate(ddf):
        if den[k]:
            rows.append(qp.Row(list(a), b + e * y[0]))

    def twin():
        kw = dict(direct=direct_dict([tuple(v) for v in dd]), solver_exception=True, jit_enable=jit)
        if kind == 'explicit':
            return GenExplicitASIF(sp, **kw)
        return GenImplicitASIF(sp, backup_window=window, backup_controller=sp.controller(s0), **kw)

    def make():
        if other == 'before':
            neighbour(ctx, kind, jit, window, stateful, 3 - m)
        rta = twin()
        if other == 'after':
            neighbour(ctx, kind, jit, window, stateful, m, y if kind == 'explicit' else None)
        cs, ds = list(rta.constraints.values()), list(rta.direct_inequality_constraints.values())
        if change == 'startoff':
            cs[i].enabled = False
        for k in range(steps):
            if change == 'none':
                watched(ctx, rta, twin, sp.x, dt, m, f'h{k % 2}', sp.clo, sp.chi, qp.Row(list(dd[0][0]), dd[0][1] + dd[0][2] * sp.x[0]) if nd and steps > 2 and m == 1 else None)
            else:
                prior(ctx, rta, sp.x, dt, m, f'h{k}')
        if change == 'params':
            sp.set_params(cs[i], i, new)
        elif change == 'newparams':
            cs[i].params = {'c': pj(new['c']), 'w': jarr(new['w'])}
        elif change == 'direct':
            ds[0].params.update({'a': jarr(ndir[0]), 'b': pj(ndir[1]), 'e': pj(ndir[2])})
        elif change == 'newdirect':
            ds[0].params = {'a': jarr(ndir[0]), 'b': pj(ndir[1]), 'e': pj(ndir[2])}
        elif change == 'off':
            cs[i].enabled = False
        elif change == 'offon':
            cs[i].enabled = False
            prior(ctx, rta, sp.x, dt, m, 'g')
            cs[i].enabled = True
        elif change == 'diroff':
            ds[0].enabled = False
        elif change == 'startoff':
            cs[i].enabled = True
        elif change == 'reset':
            rta.reset()
        elif change == 'disable':
            rta.enable = False
            prior(ctx, rta, sp.x, dt, m, 'g')
            rta.enable = True
        if other == 'last':
            neighbour(ctx, kind, jit, window, stateful, m)
        return rta

    qp.check_filter(ctx, make, y, dt_call, m, rows, lo=sp.clo, hi=sp.chi, objective=True, io=io)


@harness('C16', quick=[dict(kind='explicit', change=c, jit=j) for c in ('params', 'newparams', 'direct', 'newdirect', 'off', 'offon', 'diroff', 'startoff') for j in (True, ) if True] +
         [dict(kind='explicit', change=c, jit=False) for c in ('params', 'direct', 'off')] + [dict(kind='implicit', change=c) for c in ('params', 'newparams', 'off', 'direct', 'startoff')] +
         [dict(kind='implicit', change='params', jit=False)] +
         [dict(kind=k, change=c, jit=j, same=True) for k, c, j in (('explicit', 'params', True), ('explicit', 'newparams', False), ('explicit', 'direct', True), ('explicit', 'newdirect', True), ('explicit', 'off', True), ('explicit', 'diroff', False), ('implicit', 'params', True), ('implicit', 'off', True), ('implicit', 'startoff', False))],
         bounds='a call, the change (new symbolic parameters, or a flag), a checked call at another or the same state; two constraints and one direct constraint')
def asif_live(ctx, **kw):
    """ASIF filters: changing constraint or direct-constraint parameters or enabled flags between calls takes effect on the next call."""
    live_case(ctx, **kw)


@harness(['C08', 'C09'], quick=[dict(kind='explicit', change='none', cons=('aff', ), steps=9), dict(kind='explicit', change='none', cons=('aff', ), steps=7, jit=False, m=2), dict(kind='implicit', change='none', cons=('aff', ), steps=9), dict(kind='explicit', change='none', cons=('aff', ), steps=2, same=True),
                                dict(kind='explicit', change='none', cons=('aff', ), m=2, io='int'), dict(kind='explicit', change='none', cons=('aff', ), m=2, io='int', jit=False), dict(kind='implicit', change='none', cons=('aff', ), io='int'), dict(kind='explicit', change='none', cons=('aff', ), m=2, io='jax'), dict(kind='implicit', change='none', cons=('aff', ), io='jax', jit=False)],
         thorough=[dict(kind='explicit', change='none', cons=('aff', ), steps=70)],
         bounds='1-9 (thorough 70) earlier calls at another state or the same one, then a checked call; inputs as float, integer or jax arrays')
def asif_history(ctx, **kw):
    """The program of an ASIF call and the control returned for it depend on nothing but that call's inputs, however many calls went before."""
    live_case(ctx, **kw)


@harness('C18', quick=[dict(kind='explicit', change='reset'), dict(kind='implicit', change='reset', stateful=True, cons=('aff', )), dict(kind='implicit', change='reset', stateful=True, cons=('aff', ), jit=False, steps=2)],
         bounds='1-2 calls, reset, a checked call at another state')
def asif_reset(ctx, **kw):
    """After reset an ASIF filter solves the same program as a newly constructed one."""
    live_case(ctx, **kw)


@harness(['C07', 'C11'], quick=[dict(kind='implicit', change='none', stateful=True, cons=('aff', ), steps=2, nd=0), dict(kind='implicit', change='none', stateful=True, cons=('aff', ), steps=1, jit=False, nd=0, window=1.0),
                                dict(kind='implicit', change='none', cons=('aff', ), steps=1, nd=0, window=1.0, dt=0.5, dt2=0.25), dict(kind='implicit', change='none', cons=('aff', ), steps=9)],
         bounds='1-9 earlier calls at another state (and another step size), then a checked call')
def implicit_history(ctx, **kw):
    """Implicit ASIF with a stateful backup law: simulating the backup trajectory leaves the law's state alone, so the program of a later
    call is that of a new filter, whatever the step size of earlier calls."""
    live_case(ctx, **kw)


@harness('C02', quick=[dict(kind='explicit', change='disable', cons=('aff', )), dict(kind='implicit', change='disable', cons=('aff', ), stateful=True)],
         bounds='a call, a disabled call, a checked call')
def asif_disabled(ctx, **kw):
    """A disabled call leaves no trace in an ASIF filter."""
    live_case(ctx, **kw)


# ------------------------------------------------------------------------------------------ jit equivalence
@harness('C17', quick=[dict(kind=k, m=m) for k, m in (('explicit', 1), ('explicit', 2), ('implicit', 1), ('discrete', 2))],
         bounds='symbolic plants (implicit: fixed), one affine and one quadratic constraint; states in [-3,3]')
def same_program(ctx, kind, m):
    """A filter built with compilation and one built without solve the same program for the same state."""
    sp = Spec(ctx, n=2, m=m, plant='conc' if kind == 'implicit' else 'sym', cons=('aff', ) if kind == 'implicit' else ('aff', 'quad'), clo=-1, chi=1, xmax=3)
    en = [ctx.flag(f'en{i}') for i in range(len(sp.cons_kind))]
    d = [ctx.real(f'd{i}', -5, 5) for i in range(m)]
    z = [ctx.real(f'z{i}', -5, 5) for i in range(m)]

    def make(jit):
        kw = dict(jit_enable=jit, solver_exception=True)
        rta = GenExplicitASIF(sp, **kw) if kind == 'explicit' else GenDiscreteASIF(sp, **kw) if kind == 'discrete' else GenImplicitASIF(sp, backup_window=0.5, **kw)
        for e, c in zip(en, rta.constraints.values()):
            c.enabled = e
        return rta

    if not ctx.symbolic:
        for des in (d, z):
            a, b = [qp.outcome(lambda j=j: make(j), sp.x, sp.dt, des) for j in (True, False)]
            ctx.check((a is None) == (b is None), 'compiled and uncompiled agree on feasibility')
            if a is not None:
                ctx.close(a, b, 'compiled and uncompiled return the same control', tol=1e-4)
        return
    from vf import npsym, stubs
    got = []

    def q(call):
        got.append(call)
        return stubs.qp_result(call, d, ())

    def mn(call):
        got.append(call)
        return stubs.OptRes(npsym.as_symnd(d), True)

    ctx.qp_handler, ctx.min_handler = q, mn
    for j in (True, False):
        make(j).filter_control(nparr(sp.x), sp.dt, nparr(d))
    A_, B_ = got
    if kind == 'discrete':
        ra, rb = [[v for _, v in c.cons(z)] + c.bound_rows(z) for c in got]
    else:
        ra, rb = A_.rows(z), B_.rows(z)
    ctx.close(A_.objective(z) - A_.objective(d), B_.objective(z) - B_.objective(d), 'the same objective')
    for r in ra:
        ctx.check(Implies(And([v >= 0 for v in rb]), r >= -qp.MARGIN), 'compiled and uncompiled programs admit the same controls')
    for r in rb:
        ctx.check(Implies(And([v >= 0 for v in ra]), r >= -qp.MARGIN), 'compiled and uncompiled programs admit the same controls')


# ------------------------------------------------------------------------------------------ cascades
@harness('C19', quick=[dict(n=n, m=m, bounded=b, inner=i) for n, m, b, i in ((1, 1, False, False), (2, 2, False, True), (3, 1, True, True), (3, 2, False, False), (2, 1, True, False))] +
         [dict(n=2, m=2, bounded=False, inner=False, io='int'), dict(n=2, m=2, bounded=True, inner=True, io='int'), dict(n=2, m=2, bounded=True, inner=False, io='jax')],
         thorough=[dict(n=5, m=3, bounded=True, inner=True)],
         bounds='chains of 1-3 (thorough 5) stages, each shifting the control by an arbitrary amount, with or without its own bounds, each claiming an intervention or not, each enabled or not')
def cascade(ctx, n, m, bounded, inner, io='np'):
    """A cascade hands each stage the control returned by the previous one (the first gets the desired control), at the same state and step
    size, returns the last stage's control within its own bounds, and reports an intervention exactly when a stage does."""
    shifts = [[ctx.real(f's{k}_{i}', -3, 3) for i in range(m)] for k in range(n)]
    claims = [ctx.flag(f'claim{k}') for k in range(n)]
    ens = [ctx.flag(f'en{k}') if k == n - 1 else True for k in range(n)]
    kw = {'control_bounds_low': -2.0, 'control_bounds_high': 1.5} if inner else {}
    stages = [Fixed(shifts[k], claims[k], **kw) for k in range(n)]
    rta = Chain(stages, **({'control_bounds_low': -1.0, 'control_bounds_high': 1.0} if bounded else {}))
    x = [ctx.real('x0'), ctx.real('x1')]
    for call in range(2):
        if call == 1:
            for k in range(n):
                stages[k].enable = ens[k]
            claims = claims[::-1]
            for k in range(n):
                stages[k].claim = claims[k]
        d = wants(ctx, f'd{call}_', m, io, 5)
        out = vals(rta.filter_control(given(x, 'jax' if io == 'jax' else 'np'), 0.25, given(d, io)))
        cur = d
        for k in range(n):
            if call == 1 and not ens[k]:
                continue
            st, dt, seen = stages[k].seen[call]
            ctx.close(st, x, 'every stage sees the state')
            ctx.check(dt == 0.25, 'every stage sees the step size')
            ctx.close(seen, cur, 'every stage filters the previous stage\'s control')
            cur = add(cur, shifts[k])
            if inner:
                cur = [clipv(v, -2.0, 1.5) for v in cur]
        ctx.close(out, [clipv(v, -1.0, 1.0) for v in cur] if bounded else cur, 'the last stage\'s control is returned')
        exp = any(c and (call == 0 or e) for c, e in zip(claims, ens))
        ctx.check(bool(rta.intervening) == exp, 'an intervention is reported exactly when a stage intervenes')


@harness(['C18', 'C19'], quick=[dict(kinds=['esim', 'dv']), dict(kinds=['dv', 'esim'])], bounds='a latched simplex stage and a latched delta-v limiter, one call with arbitrary inputs, then reset')
def cascade_reset(ctx, kinds):
    """Resetting a cascade resets every stage."""
    sp = Spec(ctx, n=8, m=3, plant='conc', cons=('aff', ), xmax=3)
    mk = {'esim': lambda: GenExplicitSimplex(sp, latch_time=10.0), 'dv': lambda: deltav(delta_v_limit=1.0, n_steps=1)}
    stages = [mk[k]() for k in kinds]
    rta = Chain(stages)
    d = [ctx.real(f'd{i}', -3, 3) for i in range(3)]
    rta.filter_control(nparr(sp.x), 0.5, nparr(d))
    rta.enable = False
    rta.reset()
    ctx.check(rta.enable and not rta.intervening and rta.control_actual is None and rta.control_desired is None, 'the cascade is reset')
    for s in stages:
        ctx.check(s.enable and not s.intervening and s.control_actual is None and s.control_desired is None, 'every stage is reset')
        ctx.check(not getattr(s, 'latched', False), 'every stage is unlatched')
    # behaves like a new one
    new = Chain([mk[k]() for k in kinds])
    y = [ctx.real(f'y{i}', -3, 3) for i in range(8)]
    a = vals(rta.filter_control(nparr(y), 0.5, nparr(d)))
    b = vals(new.filter_control(nparr(y), 0.5, nparr(d)))
    ctx.close(a, b, 'after reset a cascade filters like a new one', tol=1e-5)
    ctx.check(bool(rta.intervening) == bool(new.intervening), 'after reset a cascade reports like a new one')
