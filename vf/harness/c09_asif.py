"""Active set invariance filters: what is returned and reported for the program's answer"""
import warnings

from vf import qp
from vf.env import R
from vf.gen import *
from vf.harness.c08_asif import A, direct_dict, explicit_case, explicit_row, implicit_case, implicit_rows, sens
from vf.lib import *
from vf.registry import harness

# ---------------------------------------------------------------------------------------------- objective
OBJ = [
    dict(m=1, cons=['aff'], slack=[]), dict(m=2, cons=['aff', 'aff'], slack=[1]), dict(m=2, cons=['aff', 'quad', 'aff'], slack=[0, 2], jit=False),
    dict(m=1, cons=['aff'], slack=[0], nd=1), dict(m=2, cons=['aff'], slack=[], lo=None, hi=None), dict(m=3, n=3, cons=['aff'], slack=[]),
]


@harness('C09', quick=[dict(kind='explicit', plant='conc', toggles=False, sets=s, **o) for o in OBJ[:5] for s in (False, )] +
         [dict(kind='explicit', plant='conc', toggles=False, **OBJ[1]), dict(kind='explicit', plant='conc', toggles=True, cons=['aff', 'aff'], m=2, nd=1),
          dict(kind='implicit', cons=['aff', 'aff'], slack=[1], window=0.5, lo=None, hi=None), dict(kind='implicit', cons=['aff'], m=2, window=0.5, sets=False)],
         bounds='up to 3 controls and 2 slacks; fixed plants, symbolic constraints, states and desired controls in [-5,5]')
def closest(ctx, kind, **kw):
    """ASIF filters: the answer minimises the distance to the desired control (plus the weighted slacks) over the admissible controls."""
    (explicit_case if kind == 'explicit' else implicit_case)(ctx, **kw)


# ---------------------------------------------------------------------------------------------- flag
def half(ctx, m):
    """one direct constraint  c.u >= b  with unit normal c, and the closest point to d"""
    c = {1: [1.0], 2: [0.6, 0.8], 3: [0.48, 0.64, -0.6]}[m]
    b = ctx.real('b', -3, 3)
    return c, b


@harness('C09', quick=[dict(kind=k, m=m, eps=e) for k, m, e in (('explicit', 1, None), ('explicit', 2, None), ('explicit', 2, 0.5), ('implicit', 1, None), ('implicit', 2, 0.25), ('explicit', 3, 0.0))] +
         [dict(kind='explicit', m=1, eps=0.25, calls=2), dict(kind='implicit', m=2, eps=None, calls=2), dict(kind='explicit', m=1, eps=None, bounded=True), dict(kind='implicit', m=1, eps=0.5, bounded=True, calls=2),
          dict(kind='discrete', m=1, eps=0.25, bounded=True, calls=2), dict(kind='discrete', m=1, eps=None)],
         thorough=[dict(kind='explicit', m=2, eps=0.25, calls=3), dict(kind='discrete', m=1, eps=0.25, bounded=True, calls=3)],
         bounds='1-3 controls, one active half space with symbolic offset, optional bounds [-1,1] with desired controls beyond them, thresholds 0, 0.01 (default), 0.25, 0.5; 1-2 (thorough 3) calls')
def flag(ctx, kind, m, eps, calls=1, bounded=False):
    """ASIF filters report an intervention exactly when the returned control differs from the desired one by more than the threshold, and
    return the answer of the program itself."""
    lo, hi = (-1, 1) if bounded else (None, None)
    sp = Spec(ctx, n=2, m=m, plant='conc', cons=('aff', ), xmax=3, clo=lo, chi=hi)
    c, b = half(ctx, m)
    kw = {} if eps is None else {'epsilon': eps}
    direct = OrderedDict([('half', Direct(c, b, 0.0))])
    if kind == 'explicit':
        rta = GenExplicitASIF(sp, direct=direct, solver_exception=True, **kw)
    elif kind == 'implicit':
        rta = GenImplicitASIF(sp, direct=direct, backup_window=0.5, solver_exception=True, **kw)
    else:
        rta = GenDiscreteASIF(sp, solver_exception=True, **kw)
    for con in rta.constraints.values():
        con.enabled = False
    if bounded and kind != 'discrete':
        ctx.assume(b <= 0.9)
    eps = 1e-2 if eps is None else eps
    for k in range(calls):
        d = [ctx.real(f'd{k}_{i}', -5, 5) for i in range(m)]
        if kind == 'discrete':
            u = sp.clip(d)
            moved = maxv(*[absv(v) for v in sub(u, d)])  # one control
        elif bounded:
            u = [clipv(maxv(b, d[0]), -1.0, 1.0)]
            moved = absv(u[0] - d[0])
        else:
            gap = maxv(0.0, b - dot(c, d))
            u = add(d, scale(gap, c))
            moved = gap
        if ctx.symbolic:
            from vf import npsym, stubs
            ctx.qp_handler = lambda call: stubs.qp_result(call, u, ())
            ctx.min_handler = lambda call: stubs.OptRes(npsym.as_symnd(u), True)
        ctx.assume(absv(moved - eps) >= 1e-4)
        x = sp.x if k == 0 else [ctx.real(f'x{k}_{i}', -3, 3) for i in range(2)]
        out = vals(rta.filter_control(nparr(x), sp.dt, nparr(d)))
        ctx.close(out, u, 'the answer of the program is returned', tol=1e-5)
        ctx.check(bool(rta.intervening) == bool(moved > eps), 'intervention is reported exactly when the control was changed by more than the threshold')
        ctx.check(isinstance(rta.intervening, bool), 'the flag is a truth value')


# ---------------------------------------------------------------------------------------------- attribution
def attribute(ctx, make, named, x, dt, m, calls=1):
    """named: [(name, Row)] the reference conditions; the optimum lies on exactly one of them"""
    rta = make()
    for k in range(calls):
        attribute_call(ctx, rta, named, x, dt, m, f'_{k}' if k else '')


def attribute_call(ctx, rta, named, x, dt, m, tag):
    d = [ctx.real(f'd{i}{tag}', -5, 5) for i in range(m)]
    if ctx.symbolic:
        from vf import stubs

        def handler(call):
            j = ctx.choice('active' + tag, call.m + 1)
            if j == call.m:  # nothing binds
                for r in call.rows(d):
                    ctx.assume(r >= 0.02)
                return stubs.qp_result(call, d, ())
            ctx.assume(Or([absv(call.C[i, j]) >= 1e-3 for i in range(call.n)]))
            u = [ctx.fresh('u', -20, 20) for _ in range(m)]
            lam = ctx.fresh('lam', 1e-3, 50)
            for i in range(m):
                ctx.assume(And(u[i] - d[i] - lam * call.C[i, j] <= 0, u[i] - d[i] - lam * call.C[i, j] >= 0))
            ctx.assume(norm2(sub(u, d)) >= 4e-6)
            for k, r in enumerate(call.rows(u)):
                ctx.assume(And(r <= 0, r >= 0) if k == j else r >= 0.02)
            return stubs.qp_result(call, u, (j + 1, ), {j: lam})

        ctx.qp_handler = handler
    out = vals(rta.filter_control(nparr(x), dt, nparr(d)))
    names = rta.constraints_causing_intervention
    ctx.check(isinstance(names, list) and len(set(names)) == len(names), 'the causes are listed once each')
    known = [n for n, _ in named]
    ctx.check(all(n in known for n in names), 'only known conditions are listed')
    moved = norm2(sub(out, d)) >= 1e-6
    ctx.check(Iff(moved, len(names) > 0), 'a cause is listed exactly when the control is changed')
    for n in names:
        ctx.check(Or([absv(r.val(out)) <= 1e-3 for k, r in named if k == n]), 'every listed condition is active')


@harness('C09', quick=[dict(m=1, cons=['aff', 'aff'], nd=1), dict(m=2, cons=['aff'], nd=2, bounded='both'), dict(m=2, cons=['aff'], nd=0, bounded='low'), dict(m=1, cons=['aff'], nd=1, bounded='low', calls=2), dict(m=1, cons=['aff', 'aff'], nd=1, bounded='high', jit=False, off=[0])],
         bounds='up to 5 conditions, exactly one of them binding (or none); 1-2 calls')
def causes(ctx, m, cons, nd, bounded='both', jit=True, off=(), calls=1):
    """Explicit ASIF: the reported causes of an intervention name exactly the conditions active at the returned control."""
    lo, hi = (-1 if bounded in ('both', 'low') else None), (1 if bounded in ('both', 'high') else None)
    sp = Spec(ctx, n=2, m=m, plant='conc', cons=cons, clo=lo, chi=hi, xmax=3)
    sp.pars = [{'c': ctx.real(f'c{i}', -4, 4), 'w': [0.5 + i, 1.25 - i]} for i in range(len(cons))]
    dd = [([0.6, 0.8][:m] if k == 0 else [-0.3, 0.9][:m], ctx.real(f'db{k}', -3, 3), 0.25) for k in range(nd)]
    named = []
    for i in range(m):
        e = [1.0 if k == i else 0.0 for k in range(m)]
        if lo is not None:
            named.append((f'u{i+1}_min', qp.Row(e, lo)))
        if hi is not None:
            named.append((f'u{i+1}_max', qp.Row([-v for v in e], -hi)))
    for i in range(len(cons)):
        if i not in off:
            named.append((f'con{i}', explicit_row(sp, i, sp.x)))
    for k, (a, b, e) in enumerate(dd):
        named.append((f'dir{k}', qp.Row(a, b + e * sp.x[0])))

    def make():
        rta = GenExplicitASIF(sp, direct=direct_dict(dd), solver_exception=True, jit_enable=jit)
        for i in off:
            list(rta.constraints.values())[i].enabled = False
        return rta

    attribute(ctx, make, named, sp.x, sp.dt, m, calls)


@harness('C09', quick=[dict(window=0.5, cons=['aff', 'aff'], cfgs=[{}, {}], nd=1), dict(window=1.0, cons=['aff', 'aff'], cfgs=[dict(num_check_all=1, skip_length=2, keep_last=True), dict(keep_first=True, skip_length=2)], nd=1),
                       dict(window=1.0, cons=['aff', 'aff'], cfgs=[dict(num_check_all=0, skip_length=3), {}], nd=1, bounded=False), dict(window=0.5, cons=['aff'], cfgs=[{}], nd=1, bounded=False, calls=2)],
         bounds='trajectories of 2-3 points, two constraints with different subsampling, exactly one condition binding (or none)')
def implicit_causes(ctx, window, cons, cfgs, nd, bounded=True, calls=1):
    """Implicit ASIF: the reported causes name exactly the constraints with a condition active at the returned control."""
    m = 1
    sp = Spec(ctx, n=2, m=m, plant='conc', cons=cons, clo=-1 if bounded else None, chi=1 if bounded else None, xmax=3, con_kw=[dict(c) for c in cfgs])
    sp.pars = [{'c': ctx.real(f'c{i}', -4, 4), 'w': [0.5 + i, 1.25 - i]} for i in range(len(cons))]
    sp.k0 = [0.25] * m
    dd = [([0.6, 0.8][:m], ctx.real(f'db{k}', -3, 3), 0.25) for k in range(nd)]
    named = [('u1_min', qp.Row([1.0], -1)), ('u1_max', qp.Row([-1.0], -1))] if bounded else []
    from vf.harness.c08_asif import select
    pts, S = sens(sp, sp.x, int(round(window / sp.dt, 6)), sp.dt)
    for i in range(len(cons)):
        named += [(f'con{i}', r) for r in select(implicit_rows(sp, i, sp.x, pts, S, None, 0), cfgs[i])]
    for k, (a, b, e) in enumerate(dd):
        named.append((f'dir{k}', qp.Row(a, b + e * sp.x[0])))

    def make():
        return GenImplicitASIF(sp, direct=direct_dict(dd), solver_exception=True, backup_window=window)

    attribute(ctx, make, named, sp.x, sp.dt, m, calls)


# ---------------------------------------------------------------------------------------------- infeasibility
class Stubborn:
    """replaces the QP library for one call by one failing in a given way"""

    def __init__(self, msg):
        self.msg = msg

    def __enter__(self):
        self.real = R.asif.quadprog.solve_qp

        def bad(*a, **k):
            raise ValueError(self.msg)

        R.asif.quadprog.solve_qp = bad

    def __exit__(self, *a):
        R.asif.quadprog.solve_qp = self.real


@harness('C10', quick=[dict(kind=k, exc=e, jit=j, m=m) for k, e, j, m in (('explicit', True, True, 1), ('explicit', False, True, 1), ('explicit', False, False, 2), ('explicit', True, False, 2), ('implicit', True, True, 1), ('implicit', False, True, 2))] +
         [dict(kind='explicit', exc=False, jit=True, m=1, bounded=True), dict(kind='explicit', exc=True, jit=True, m=1, bounded=True)] +
         [dict(kind='explicit', exc=False, jit=True, m=1, calls=3), dict(kind='explicit', exc=True, jit=True, m=1, calls=2), dict(kind='implicit', exc=False, jit=True, m=1, calls=2, bounded=True)],
         bounds='1-2 controls, two opposing half spaces with symbolic offsets (overlapping or contradictory by 0.05 or more), optional bounds [-1,1]; 1-3 calls at different states')
def infeasible(ctx, kind, exc, jit, m, bounded=False, calls=1):
    """ASIF filters with contradictory conditions: with exceptions enabled the call raises the solver error, otherwise it warns and returns
    the desired control limited to the bounds; with consistent conditions neither happens."""
    lo, hi = (-1, 1) if bounded else (None, None)
    sp = Spec(ctx, n=2, m=m, plant='conc', cons=('aff', ), clo=lo, chi=hi, xmax=3)
    b1, b2 = ctx.real('b1', -3, 3), ctx.real('b2', -3, 3)
    e = [1.0] + [0.0] * (m - 1)
    direct = OrderedDict([('ge', Direct(e, b1, 0.5)), ('le', Direct([-v for v in e], -b2, 0.0))])
    if kind == 'explicit':
        rta = GenExplicitASIF(sp, direct=direct, solver_exception=exc, jit_enable=jit)
    else:
        rta = GenImplicitASIF(sp, direct=direct, backup_window=0.5, solver_exception=exc, jit_enable=jit)
    for c in rta.constraints.values():
        c.enabled = False
    for k in range(calls):
        d = [ctx.real(f'd{k}_{i}', -5, 5) for i in range(m)]
        x = sp.x if k == 0 else [ctx.real(f'x{k}_{i}', -3, 3) for i in range(2)]
        lows, highs = [b1 + 0.5 * x[0]] + ([-1.0] if bounded else []), [b2] + ([1.0] if bounded else [])
        l, h = maxv(*lows), minv(*highs)
        ctx.assume(absv(l - h) >= 0.05)
        good = l <= h
        u = [clipv(d[0], l, h)] + [clipv(v, -1.0, 1.0) if bounded else v for v in d[1:]]
        if ctx.symbolic:
            from vf import stubs

            def handler(call):
                if good:
                    return stubs.qp_result(call, u, ())
                raise ValueError(stubs.INCONSISTENT)

            ctx.qp_handler = handler
        seen, err, out = [], None, None
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                out = vals(rta.filter_control(nparr(x), sp.dt, nparr(d)))
            except R.utils.SolverError as ex:
                err = ex
            seen = [q for q in w if issubclass(q.category, R.utils.SolverWarning)]
        if good:
            ctx.check(err is None and not seen, 'consistent conditions: no error and no warning')
            ctx.close(out, u, 'consistent conditions: the closest admissible control', tol=1e-5)
        elif exc:
            ctx.check(err is not None, 'contradictory conditions raise the solver error')
        else:
            ctx.check(err is None and len(seen) >= 1, 'contradictory conditions warn')
            ctx.close(out, sp.clip(d), 'contradictory conditions: the desired control limited to the bounds is returned', tol=1e-5)


@harness('C10', quick=[dict(kind='explicit', exc=e, msg=mm) for e in (True, False) for mm in ('matrix G is not positive definite', 'Buffer dtype mismatch')] + [dict(kind='implicit', exc=False, msg='matrix G is not positive definite')],
         bounds='any state and control; the QP library fails with an error other than inconsistency')
def other_failures(ctx, kind, exc, msg):
    """A failure of the QP library other than inconsistent conditions is never mistaken for one: it surfaces to the caller."""
    sp = Spec(ctx, n=2, m=1, plant='conc', cons=('aff', ), xmax=3)
    rta = GenExplicitASIF(sp, solver_exception=exc) if kind == 'explicit' else GenImplicitASIF(sp, backup_window=0.5, solver_exception=exc)
    d = [ctx.real('d0', -5, 5)]
    err = None
    with Stubborn(msg):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                rta.filter_control(nparr(sp.x), sp.dt, nparr(d))
            except Exception as ex:  # noqa: BLE001
                err = ex
    ctx.check(err is not None, 'the failure surfaces')


@harness('C09', quick=[dict(kind='explicit'), dict(kind='explicit', exc=True, jit=False), dict(kind='implicit')],
         bounds='one intervention, then a call with contradictory conditions; one control, symbolic conditions')
def infeasible_causes(ctx, **kw):
    """ASIF filters: causes of an earlier intervention are no longer reported after a call without a solution."""
    stale_causes(ctx, then='infeasible', **kw)


@harness('C18', quick=[dict(kind='explicit'), dict(kind='implicit', jit=False)], bounds='one intervention, then a reset; one control, symbolic conditions')
def reset_causes(ctx, **kw):
    """ASIF filters: causes of an earlier intervention are no longer reported after a reset."""
    stale_causes(ctx, then='reset', **kw)


def stale_causes(ctx, kind, then, exc=False, jit=True):
    sp = Spec(ctx, n=2, m=1, plant='conc', cons=('aff', ), xmax=3)
    b1, b2 = ctx.real('b1', -3, 3), ctx.real('b2', -3, 3)
    direct = OrderedDict([('ge', Direct([1.0], b1, 0.5)), ('le', Direct([-1.0], -b2, 0.0))])
    kw = dict(direct=direct, solver_exception=exc, jit_enable=jit)
    rta = GenExplicitASIF(sp, **kw) if kind == 'explicit' else GenImplicitASIF(sp, backup_window=0.5, **kw)
    for c in rta.constraints.values():
        c.enabled = False
    d, d2 = ctx.real('d', -5, 5), ctx.real('d2', -5, 5)
    x2 = [ctx.real(f'x2{i}', -3, 3) for i in range(2)]
    low, low2 = b1 + 0.5 * sp.x[0], b1 + 0.5 * x2[0]
    ctx.assume(And(low + 0.05 <= b2, d + 0.05 <= low))
    if ctx.symbolic:
        from vf import stubs

        def first(call):
            j = ctx.choice('active', call.m)
            ctx.assume(absv(call.C[0, j]) >= 1e-3)
            ctx.assume(And([And(r <= 1e-9, r >= -1e-9) if k == j else Or(r >= 0.02, absv(call.C[0, k]) <= 1e-9) for k, r in enumerate(call.rows([low]))]))
            return stubs.qp_result(call, [low], (j + 1, ))

        ctx.qp_handler = first
    out = vals(rta.filter_control(nparr(sp.x), sp.dt, nparr([d])))
    ctx.close(out, [low], 'the closest admissible control', tol=1e-5)
    ctx.check(rta.constraints_causing_intervention == ['ge'], 'the intervention is attributed to its cause')
    if then == 'reset':
        rta.reset()
    else:
        ctx.assume(low2 >= b2 + 0.05)
        if ctx.symbolic:

            def none(call):
                raise ValueError(stubs.INCONSISTENT)

            ctx.qp_handler = none
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                rta.filter_control(nparr(x2), sp.dt, nparr([d2]))
            except R.utils.SolverError:
                pass
    ctx.check(not rta.constraints_causing_intervention, 'causes of an earlier intervention are not reported again')
