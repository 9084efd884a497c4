"""Active set invariance filters: the program solved, and what is returned"""
import warnings

from vf import qp
from vf.env import R
from vf.gen import *
from vf.lib import *
from vf.registry import harness


def A(z):
    """the strengthening function used by the harness systems"""
    return 0.5 * z + 0.25 * z * z * z


def An(z):
    return 2.0 * z


POLY_NEG = [0, 2.0]


def explicit_row(sp, i, x, pars=None, slack=None, ns=0, alpha=A, alpha_neg=None, bias_neg=-0.01):
    h = sp.h(i, x, pars)
    g = sp.gradh(i, x, pars)
    neg = (alpha_neg(h) if alpha_neg else 10 * alpha(h)) + bias_neg
    al = where(h < 0, neg, alpha(h))
    sl = [0.0] * ns
    if slack is not None:
        sl[slack] = -1.0
    coef = [dot(g, sp.gcol(x, j)) for j in range(sp.m)] + sl
    return qp.Row(coef, -dot(g, sp.f(x)) - al)


def con_kw(cons, bias=(0, 0), slack=(), negs=False, bias_neg=None):
    out = []
    for i, _ in enumerate(cons):
        k = {'bias': bias[i % len(bias)]}
        if i in slack:
            k['slack_priority_scale'] = 100.0 * (i + 1)
        if negs:
            k['alpha_negative'] = R.constraint.PolynomialConstraintStrengthener(POLY_NEG)
        if bias_neg is not None:
            k['bias_negative'] = bias_neg
        out.append(k)
    return out


def direct_of(ctx, nd, m):
    """nd direct input constraints a.u >= b + e x0, with symbolic data"""
    return [([ctx.real(f'da{k}{j}', -2, 2) for j in range(m)], ctx.real(f'db{k}', -3, 3), ctx.real(f'de{k}', -1, 1)) for k in range(nd)]


def direct_dict(dd):
    return OrderedDict((f'dir{k}', Direct(*d)) for k, d in enumerate(dd))


def explicit_case(ctx, jit=True, n=2, m=1, plant='sym', cons=('aff', 'quad'), bias=(0, 0.25), slack=(), negs=False, bias_neg=None, nd=0, lo=-1,
                  hi=1, toggles=True, jd=None, objective=True, sets=True):
    kw = con_kw(cons, bias, slack, negs, bias_neg)
    sp = Spec(ctx, n=n, m=m, plant=plant, cons=cons, clo=lo, chi=hi, con_kw=kw, drift=plant != 'sym')
    ns = len(slack)
    en = [ctx.flag(f'en{i}') if toggles else True for i in range(len(cons))]
    dd = direct_of(ctx, nd, m)
    den = [ctx.flag(f'den{k}') if toggles else True for k in range(nd)]
    rows = qp.bound_rows(m, ns, sp.clo, sp.chi)
    sc = 0
    for i in range(len(cons)):
        sl = None
        if i in slack:
            sl, sc = sc, sc + 1
        if en[i]:
            rows.append(explicit_row(sp, i, sp.x, slack=sl, ns=ns, alpha_neg=An if negs else None, bias_neg=-0.01 if bias_neg is None else bias_neg))
    for k, (a, b, e) in enumerate(dd):
        if den[k]:
            rows.append(qp.Row(list(a) + [0.0] * ns, b + e * sp.x[0]))

    def make():
        rta = GenExplicitASIF(sp, direct=direct_dict(dd), solver_exception=True, jit_enable=jit, jit_compile_dict=dict(jd or {}))
        for i, c in enumerate(rta.constraints.values()):
            c.enabled = en[i]
        for k, c in enumerate(rta.direct_inequality_constraints.values()):
            c.enabled = den[k]
        return rta

    return qp.check_filter(ctx, make, sp.x, sp.dt, m, rows, [kw[i]['slack_priority_scale'] for i in slack], lo=sp.clo, hi=sp.chi, objective=objective, sets=sets)


EXPL = [
    dict(plant='sym', cons=['aff', 'quad']), dict(plant='conc', m=2, n=3, cons=['quad', 'aff'], nd=1), dict(plant='conc', cons=['aff', 'aff'], slack=[1], jit=False),
    dict(plant='conc', cons=['aff', 'quad', 'aff'], slack=[0, 2], bias=[0]), dict(plant='int', cons=['quad'], negs=True, bias_neg=-0.5),
    dict(plant='conc', m=2, cons=['aff'], lo=None, hi=1, nd=2, jit=False), dict(plant='conc', m=2, cons=['quad'], lo=-1, hi=None),
    dict(plant='conc', m=1, cons=['quad'], lo=None, hi=None, jd={'generate_barrier_constraint_mats': False}), dict(plant='conc', cons=['aff'], jit=True, nd=1, jd={'update_ineq_mats': False}),
    dict(plant='conc', m=2, cons=['aff'], lo=[-0.5, 1], hi=[2, 1.5]), dict(plant='conc', m=2, cons=['aff'], lo=None, hi=[-1, 3], slack=[0]),
    dict(plant='conc', cons=['aff', 'aff', 'aff'], slack=[0, 1], bias=[0], toggles=False),
    dict(plant='nl', cons=['aff', 'quad']), dict(plant='nl', m=2, n=3, cons=['quad'], jit=False),
]


@harness(['C08', 'C17'], quick=EXPL, thorough=[dict(plant='sym', n=3, m=2, cons=['quad', 'aff'], nd=1), dict(plant='sym', m=2, cons=['quad', 'quad', 'aff'], slack=[0, 1])],
         bounds='linear plants with up to 3 states and 2 controls (fixed or symbolic entries in [-2,2]), up to 3 constraints with symbolic '
         'coefficients, all enabled combinations, up to 2 direct constraints; states in [-5,5], controls and slacks in [-5,5]; row margin 1e-3')
def explicit_program(ctx, **kw):
    """ExplicitASIFModule.filter_control: the admissible controls are exactly those meeting the control bounds, the barrier condition
    grad h.(f+g u) >= -alpha(h) (the recovery form when h<0) of every enabled constraint, relaxed by its slack, and the direct constraints;
    among them the one closest to the desired control is chosen."""
    explicit_case(ctx, **kw)


# ------------------------------------------------------------------------------------------------------ implicit
def sens(sp, x, steps, dt, s0=None):
    """backup trajectory and its sensitivity, points 0..steps"""
    n = sp.n
    pts, S = [list(x)], [[[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]]
    s = s0
    for _ in range(steps):
        u = sp.backup(pts[-1], s)
        if s is not None:
            s = sp.next_s(pts[-1], s)
        pts.append(sp.step(pts[-1], u, dt))
        P = S[-1]
        J = sp.jac(pts[-1], s)
        S.append([[P[i][j] + dt * sum(J[i][k] * P[k][j] for k in range(n)) for j in range(n)] for i in range(n)])
    return pts, S


def implicit_rows(sp, i, x, pts, S, slack, ns, pars=None):
    fx = sp.f(x)
    out = []
    for p, s in zip(pts, S):
        g = sp.gradh(i, p, pars)
        gs = [dot(g, [s[r][c] for r in range(sp.n)]) for c in range(sp.n)]
        sl = [0.0] * ns
        if slack is not None:
            sl[slack] = -1.0
        h = sp.h(i, p, pars)
        out.append((qp.Row([dot(gs, sp.gcol(x, j)) for j in range(sp.m)] + sl, -(dot(gs, fx) + A(h))), h))
    return out


def count_lt(hs, k, strict):
    """how many other points have a smaller value (ties count unless strict)"""
    tot = 0.0
    for j, h in enumerate(hs):
        if j != k:
            tot = tot + where((h < hs[k]) if strict else (h <= hs[k]), 1.0, 0.0)
    return tot


def chosen(npts, cfg):
    nca = max(cfg.get('num_check_all', -1), 0)
    return sorted(set(range(nca)) | set(range(nca, npts, cfg.get('skip_length', 1))))


def select(rows, cfg):
    """subsample the (row, value) pairs of one constraint"""
    npts = len(rows)
    idx = chosen(npts, cfg)
    out = []
    r = cfg.get('subsample_constraints_num_least')
    if r is None:
        out += [rows[k][0] for k in idx]
    else:
        hs = [rows[k][1] for k in idx]
        for a, k in enumerate(idx):
            row = rows[k][0]
            must = count_lt(hs, a, False) <= r - 1
            may = count_lt(hs, a, True) <= r - 1
            out.append(qp.Row(row.coef, row.const, must, may))
    if cfg.get('keep_first'):
        out.append(rows[0][0])
    if cfg.get('keep_last'):
        out.append(rows[-1][0])
    return out


def implicit_case(ctx, window=1.0, dt=0.5, jit=True, n=2, m=1, plant='conc', cons=('aff', 'quad'), bias=(0, 0.25), slack=(), nd=0, lo=-1, hi=1, bounded_backup=True,
                  toggles=False, jd=None, cfgs=None, stateful=False, objective=True, sets=True, method='Euler'):
    kw = con_kw(cons, bias, slack)
    cfgs = cfgs or [{} for _ in cons]
    for k, c in zip(kw, cfgs):
        k.update(c)
    sp = Spec(ctx, n=n, m=m, plant=plant, cons=cons, clo=lo, chi=hi, con_kw=kw, stateful=stateful, xmax=3, dt=dt)
    s0 = ctx.real('s0', -1, 1) if stateful else None
    ns = len(slack)
    en = [ctx.flag(f'en{i}') if toggles else True for i in range(len(cons))]
    dd = direct_of(ctx, nd, m)
    pts, S = sens(sp, sp.x, int(round(window / dt, 6)), dt, s0)
    rows = qp.bound_rows(m, ns, sp.clo, sp.chi)
    sc = 0
    for i in range(len(cons)):
        sl = None
        if i in slack:
            sl, sc = sc, sc + 1
        if en[i]:
            rows += select(implicit_rows(sp, i, sp.x, pts, S, sl, ns), cfgs[i])
        elif sl is not None:
            # an idle slack may be pinned to the side of zero its penalty keeps it on anyway
            rows.append(qp.Row([0.0] * m + [-1.0 if k == sl else 0.0 for k in range(ns)], 0.0, must=False, may=True))
    for a, b, e in dd:
        rows.append(qp.Row(list(a) + [0.0] * ns, b + e * sp.x[0]))

    def make():
        rta = GenImplicitASIF(sp, direct=direct_dict(dd), solver_exception=True, jit_enable=jit, jit_compile_dict=dict(jd or {}), backup_window=window,
                              backup_controller=sp.controller(s0), integration_method=method)
        for i, c in enumerate(rta.constraints.values()):
            c.enabled = en[i]
        return rta

    return qp.check_filter(ctx, make, sp.x, dt, m, rows, [kw[i]['slack_priority_scale'] for i in slack], lo=sp.clo, hi=sp.chi, objective=objective, sets=sets)


IMPL = [
    dict(window=1.0, lo=None, hi=None), dict(window=1.0, lo=None, hi=None, jit=False, stateful=True), dict(window=1.5, cons=['aff'], lo=-1, hi=1),
    dict(window=1.2, cons=['quad'], lo=None, hi=None, m=2, n=3, nd=1), dict(window=0.5, cons=['aff', 'aff'], slack=[1], toggles=True),
    dict(window=1.0, cons=['aff', 'aff'], slack=[0, 1], jit=False, lo=None, hi=None), dict(window=1.0, plant='int', cons=['aff']),
    dict(window=0.25, cons=['aff', 'quad'], nd=1), dict(window=1.0, cons=['aff'], stateful=True, lo=None, hi=None, jd={'jacobian': False, 'generate_ineq_constraint_mats': False}),
    dict(window=0.5, plant='nl', cons=['aff'], lo=None, hi=None), dict(window=0.5, plant='nl', cons=['quad'], lo=None, hi=None, stateful=True, jit=False),
    dict(window=1.0, plant='nl', cons=['aff'], lo=None, hi=None), dict(window=0.5, plant='nl', cons=['aff'], lo=-1, hi=1, m=2, n=3),
    dict(window=0.9, cons=['aff'], lo=None, hi=None), dict(window=0.4, cons=['quad']),
    dict(window=0.3, dt=0.1, cons=['aff'], lo=None, hi=None), dict(window=7.5, dt=0.25, plant='damp', cons=['aff'], lo=None, hi=None),
    dict(window=20.0, dt=1.0, plant='damp', cons=['aff'], lo=None, hi=None, jit=False),
]


@harness(['C11', 'C17'], quick=IMPL, thorough=[dict(window=2.5, cons=['aff'], lo=None, hi=None), dict(window=2.0, cons=['aff', 'quad'], lo=None, hi=None, n=3, m=2)],
         bounds='backup trajectories of 0..3 (thorough 5) Euler steps of 0.5 s, fixed linear plants up to 3 states and 2 controls, symbolic affine '
         'backup law and constraints; states in [-3,3]')
def implicit_program(ctx, **kw):
    """ImplicitASIFModule.filter_control: the admissible controls are exactly those meeting the bounds and, at every point of the backup
    trajectory from the current state, grad h(phi).S(phi).(f(x)+g(x)u) >= -alpha(h(phi)) with the trajectory sensitivity S."""
    implicit_case(ctx, **kw)


SUB = [
    dict(num_check_all=2, skip_length=2), dict(num_check_all=-1, skip_length=2), dict(num_check_all=0, skip_length=3), dict(num_check_all=1, skip_length=3, keep_last=True),
    dict(subsample_constraints_num_least=1), dict(subsample_constraints_num_least=2, skip_length=2), dict(subsample_constraints_num_least=1, keep_first=True, keep_last=True),
    dict(skip_length=4, keep_first=True), dict(num_check_all=3, skip_length=1, subsample_constraints_num_least=10),
]


NOLEAST = [c for c in SUB if 'subsample_constraints_num_least' not in c]
LEAST = [c for c in SUB if 'subsample_constraints_num_least' in c]


@harness('C12', quick=[dict(window=2.0, cons=['aff', 'aff'], cfgs=[c, NOLEAST[(k * 3 + 1) % len(NOLEAST)]], lo=None, hi=None, bias=[0], slack=[1] if k % 3 == 0 else []) for k, c in enumerate(NOLEAST)] +
         [dict(window=1.5, cons=['aff'], cfgs=[c], lo=None, hi=None, bias=[0]) for c in LEAST] +
         [dict(window=10.0, plant='damp', cons=['aff', 'aff'], cfgs=[dict(num_check_all=4, skip_length=7, keep_last=True), dict(num_check_all=12, skip_length=5, keep_first=True)], lo=None, hi=None, bias=[0])] +
         [dict(window=1.0, cons=['aff', 'aff'], cfgs=[dict(subsample_constraints_num_least=1), dict(subsample_constraints_num_least=1, keep_last=True)], bias=[0], lo=None, hi=None, slack=[1]),
          dict(window=1.0, cons=['quad'], cfgs=[dict(subsample_constraints_num_least=2)], bias=[0], lo=None, hi=None, jit=False, nd=1)],
         thorough=[dict(window=3.0, cons=['aff'], cfgs=[c], lo=None, hi=None, bias=[0]) for c in NOLEAST] + [dict(window=2.0, cons=['aff'], cfgs=[c], lo=None, hi=None, bias=[0]) for c in LEAST],
         bounds='trajectories of 3-5 points (thorough 5-7), the listed subsampling settings, two constraints with different settings')
def subsampling(ctx, **kw):
    """Implicit ASIF subsampling: exactly the trajectory points selected by num_check_all / skip_length / num_least / keep_first / keep_last
    contribute conditions, for every constraint separately."""
    implicit_case(ctx, **kw)
