"""Constraint library: limits, strengthening, bias, higher order conditions, reported values"""
from vf import qp
from vf.env import R
from vf.gen import *
from vf.lib import *
from vf.registry import harness


def P(co):
    return R.constraint.PolynomialConstraintStrengthener(co)


def poly(co, z):
    r = 0.0
    p = 1.0
    for c in co:
        r = r + c * p
        p = p * z
    return r


LIMITS = {'mag': ('ConstraintMagnitudeStateLimit', lambda L, s: L * L - s * s, lambda L, s: -2 * s), 'max': ('ConstraintMaxStateLimit', lambda L, s: L - s, lambda L, s: -1.0),
          'min': ('ConstraintMinStateLimit', lambda L, s: s - L, lambda L, s: 1.0)}


@harness('C15', quick=[dict(kind=k, n=n, idx=i, jit=j, bias=b) for k in LIMITS for n, i, j, b in ((2, 0, True, None), (3, 2, True, 0.5), (4, 1, False, -0.25), (3, -1, True, None))],
         bounds='states of 2-4 elements in [-10,10], limits in [-6,6] (magnitude: [0,6])')
def limits(ctx, kind, n, idx, jit, bias):
    """Limit constraints: the value is non-negative exactly when the selected state element respects the limit (shifted by the bias); the
    gradient is that of the value, and the reported unbiased value is the physical margin."""
    cls, h, g = LIMITS[kind]
    L = ctx.real('L', 0 if kind == 'mag' else -6, 6)
    kw = {'bias': bias} if bias is not None else {}
    con = getattr(R.constraint, cls)(limit_val=pj(L), state_index=idx, jit_enable=jit, **kw)
    x = [ctx.real(f'x{i}') for i in range(n)]
    s = x[idx]
    st = jarr(x)
    v = val(con(st, con.params))
    ctx.close(v, h(L, s) + (bias or 0), 'value of the constraint')
    ctx.close(val(con.compute(st, con.params)), h(L, s) + (bias or 0), 'value of the constraint')
    ctx.close(val(con.phi(st, con.params)), h(L, s), 'unbiased value of the constraint')
    k = idx % n
    ctx.close(vals(con.grad(st, con.params)), [g(L, s) if i == k else 0.0 for i in range(n)], 'gradient of the constraint')
    # a changed limit counts at once, through the parameters handed over
    L2 = ctx.real('L2', 0 if kind == 'mag' else -6, 6)
    ctx.close(val(con(st, {**con.params, 'limit_val': pj(L2)})), h(L2, s) + (bias or 0), 'value for changed parameters')
    z = ctx.real('z', -3, 3)
    ctx.close(val(con.alpha(pj(z))), poly([0, 0.0005, 0, 0.001], z), 'the documented default strengthening')
    ctx.close(val(con.alpha_negative(pj(z))), 10 * poly([0, 0.0005, 0, 0.001], z), 'the documented default recovery')
    ctx.close(con.bias_negative, -0.01, 'recovery bias')
    if bias is None:
        ok = {'mag': absv(s) <= L, 'max': s <= L, 'min': s >= L}[kind]
        ctx.iff(v >= 0, ok, 'non-negative exactly when the limit is respected')


@harness('C15', quick=[dict(co=c) for c in ([0, 1], [0, 0.5, 0, 0.25], [0.5, -2, 1, 3], [0, 0, 0, 0.1], [2], None, [0, 1, 0, 0, 0, 2])],
         bounds='listed and symbolic polynomial coefficients of degree up to 5, arguments in [-3,3]')
def strengthener(ctx, co):
    """Polynomial strengthening: the value is sum c_n z^n with the constant term first."""
    z = ctx.real('z', -3, 3)
    st = P(list(co)) if co is not None else R.constraint.PolynomialConstraintStrengthener()
    co = [0, 1] if co is None else co
    ctx.close(val(st(pj(z))), poly(co, z), 'value of the polynomial', tol=1e-5)


@harness('C15', quick=[dict(neg=n, jit=j) for n in (False, True) for j in (True, False)], bounds='polynomials of degree 3, arguments in [-3,3]')
def alphas(ctx, neg, jit):
    """Strengthening of a constraint: alpha is the polynomial given; below zero the recovery polynomial, ten times alpha unless given."""
    co, cn = [0, 0.5, 0, 0.25], [0, 3, 1]
    sp = Spec(ctx, n=2, m=1, plant='int', cons=('aff', ))
    con = sp.constraint(0, alpha=P(co), jit_enable=jit, **({'alpha_negative': P(cn)} if neg else {}))
    z = ctx.real('z', -3, 3)
    ctx.close(val(con.alpha(pj(z))), poly(co, z), 'alpha', tol=1e-5)
    ctx.close(val(con.alpha_negative(pj(z))), poly(cn, z) if neg else 10 * poly(co, z), 'recovery alpha', tol=1e-5)
    ctx.close(con.bias_negative, -0.01, 'recovery bias')


# -------------------------------------------------------------------------------------------- higher order
class Pos(R.constraint.ConstraintModule):
    """c + w.x - q x0^2  of a chain of integrators"""

    def _compute(self, state, params):
        return params['c'] + params['w'] @ state - params['q'] * state[0]**2


HO = [0, 0.5, 0, 0.25]


@harness(['C14'], quick=[dict(deg=1), dict(deg=2), dict(deg=2, jit=False), dict(deg=2, quad=True), dict(deg=3, alpha=[0, 0.5]), dict(deg=2, bias=0.5, ibias=0.25), dict(deg=1, bias=0.5, ibias=0.25, quad=True)],
         thorough=[dict(deg=3), dict(deg=3, quad=True, alpha=[0, 0.5])],
         bounds='chain of 2-3 integrators with symbolic drift matrix, affine/quadratic base constraint, relative degrees 1-3; states in [-3,3]')
def hocbf(ctx, deg, quad=False, jit=True, alpha=None, bias=0, ibias=0):
    """Higher order constraint: psi_0 is the given constraint, psi_k = grad psi_{k-1}.f + alpha(psi_{k-1}), and the value is psi_{r-1}; the
    reported safety margin is that of the original constraint, and the gradient is that of the value."""
    n = 2 if deg < 3 else 3
    al = alpha or HO
    M = mat(ctx, 'M', n, n, -1, 1) if deg < 3 else [[0.25, 1.0, 0.0], [0.0, -0.5, 1.0], [0.5, 0.0, 0.25]]
    Mj = jmat(M)
    c, q = ctx.real('c', -4, 4), ctx.real('q', -1, 1) if quad else 0.0
    w = [ctx.real(f'w{i}', -2, 2) for i in range(n)]
    base = Pos(params={'c': pj(c), 'w': jarr(w), 'q': pj(q)}, alpha=P([0, 7.0]), bias=ibias, jit_enable=jit)
    con = R.constraint.HOCBFConstraint(base, relative_degree=deg, state_transition_system=lambda s: Mj @ s, alpha=P(list(al)), bias=bias, jit_enable=jit)
    x = [ctx.real(f'x{i}', -3, 3) for i in range(n)]
    st = jarr(x)

    def dalpha(z):
        return sum((k * cc * (z**(k - 1) if k > 1 else 1.0) for k, cc in enumerate(al) if k), 0.0)

    # psi_0 and its derivatives (value, gradient, Hessian) in closed form
    fx = matvec(M, x)
    p0 = c + dot(w, x) - q * x[0] * x[0]
    g0 = [w[0] - 2 * q * x[0]] + w[1:]
    Mt = [[M[j][i] for j in range(n)] for i in range(n)]

    def nxt(v, g, H, b):
        """psi' = g.f + alpha(v+b); its gradient = H f + M^T g + alpha'(v+b) g   (Hessian of psi' only needed for deg 3, alpha linear)"""
        val_ = dot(g, fx) + poly(al, v + b)
        gr = add(add(matvec(H, fx), matvec(Mt, g)), scale(dalpha(v + b), g))
        return val_, gr

    H0 = [[0.0] * n for _ in range(n)]
    H0[0][0] = -2 * q
    v, g, H = p0, g0, H0
    b = ibias
    for k in range(1, deg):
        v2, g2 = nxt(v, g, H, b)
        if deg == 3 and k == 1:
            # linear alpha and linear f: Hessian of psi_1 = H M + M^T H + a1 H
            a1 = al[1] if len(al) == 2 else None
            if a1 is not None:
                HM = [[sum(H[i][l] * M[l][j] for l in range(n)) for j in range(n)] for i in range(n)]
                H = [[HM[i][j] + HM[j][i] + a1 * H[i][j] for j in range(n)] for i in range(n)]
            else:
                d2 = sum((kk * (kk - 1) * cc * ((v + b)**(kk - 2) if kk > 2 else 1.0) for kk, cc in enumerate(al) if kk > 1), 0.0)
                HM = [[sum(H[i][l] * M[l][j] for l in range(n)) for j in range(n)] for i in range(n)]
                H = [[HM[i][j] + HM[j][i] + dalpha(v + b) * H[i][j] + d2 * g[i] * g[j] for j in range(n)] for i in range(n)]
        v, g, b = v2, g2, 0.0
    ctx.close(val(con(st, con.params)), v + (ibias if deg == 1 else 0) + bias, 'value of the higher order constraint', tol=1e-5)
    ctx.close(vals(con.grad(st, con.params)), g, 'gradient of the higher order constraint', tol=1e-5)
    ctx.close(val(con.phi(st, con.params)), p0, 'the reported margin is that of the original constraint', tol=1e-6)
    ctx.close(val(con.alpha(pj(ctx.real('z', -3, 3)))), poly(al, ctx.real('z', -3, 3)), 'the strengthening function is the one given', tol=1e-5)
    # changed parameters reach every level
    c2 = ctx.real('c2', -4, 4)
    ctx.close(val(con.phi(st, {**con.params, 'c': pj(c2)})), p0 - c + c2, 'changed parameters reach the original constraint', tol=1e-6)


@harness(['C14', 'C16'], quick=[dict(deg=2), dict(deg=2, jit=False)] + [dict(deg=2, jit=j, change=c) for j, c in ((True, 'base'), (True, 'ho'), (False, 'base'), (True, 'new'))],
         bounds='double integrator, affine base constraint on the position, relative degree 2; parameters set at construction or changed after a call, through the original or the higher-order constraint')
def hocbf_filter(ctx, deg, jit=True, change=None):
    """Explicit ASIF with a higher order constraint: the admissible controls are those with psi_1' >= -alpha(psi_1)."""
    sp = Spec(ctx, n=2, m=1, plant='int', cons=('aff', ), clo=-1, chi=1, xmax=3)
    al = HO
    c, w = ctx.real('c', -4, 4), ctx.real('w', -2, 2)
    x = sp.x

    class F(PlantMixin, R.asif.ExplicitASIFModule):

        def __init__(self, **kw):
            self.plant(sp)
            super().__init__(control_dim=1, **{**sp.bounds_kw(), **kw})

        def _setup_constraints(self):
            base = self.base = AffCon(params={'c': pj(c if change is None else 1.5), 'w': jarr([w, 0.0])}, alpha=P([0, 3.0]))
            return OrderedDict([('ho', R.constraint.HOCBFConstraint(base, relative_degree=deg, state_transition_system=self.state_transition_system, alpha=P(list(al))))])

    h0 = c + w * x[0]
    da = 0.5 + 0.75 * h0 * h0
    p1 = w * x[1] + poly(al, h0)
    g1 = [da * w, w]
    neg = 10 * poly(al, p1) - 0.01
    alv = where(p1 < 0, neg, poly(al, p1))
    rows = qp.bound_rows(1, 0, sp.clo, sp.chi) + [qp.Row([g1[1]], -(g1[0] * x[1]) - alv)]

    def mk():
        rta = F(solver_exception=True, jit_enable=jit)
        if change is not None:
            if ctx.symbolic:
                from vf import stubs
                ctx.qp_handler = lambda call: stubs.qp_result(call, [0.0], ())
            try:
                rta.filter_control(nparr([0.5, 0.0]), sp.dt, nparr([0.0]))
            except R.utils.SolverError:
                pass
            ho = rta.constraints['ho']
            if change == 'new':
                ho.params = {**ho.params, 'c': pj(c)}
            else:
                (rta.base if change == 'base' else ho).params['c'] = pj(c)
        return rta

    qp.check_filter(ctx, mk, x, sp.dt, 1, rows, lo=sp.clo, hi=sp.chi)


# -------------------------------------------------------------------------------------------- reported values
CLS = {'esim': GenExplicitSimplex, 'isim': GenImplicitSimplex, 'easif': GenExplicitASIF, 'iasif': GenImplicitASIF, 'dasif': GenDiscreteASIF}


def build(sp, kind, **kw):
    if kind in ('isim', 'iasif'):
        kw['backup_window'] = 1.0
    return CLS[kind](sp, **kw)


@harness('C21', quick=[dict(kind=k, jit=j) for k in CLS for j in (True, False)] + [dict(kind=k, jit=j, io='jax') for k, j in zip(CLS, (True, False) * 4)],
         bounds='two constraints (one biased, one disabled or not) with symbolic coefficients; two calls with arbitrary states (float or jax arrays), an explicit refresh, changed parameters')
def reported(ctx, kind, jit, io='np'):
    """The reported constraint values are the unbiased margins of every constraint in use at the state last given, with the parameters in
    force then, labelled as belonging to the last filtered state until explicitly refreshed."""
    from vf.harness.c02_calls import optimizers, quiet
    optimizers(ctx)
    sp = Spec(ctx, n=2, m=1, plant='int', cons=('aff', 'quad'), con_kw=[{'bias': 0.5}, {}], xmax=3)
    rta = build(sp, kind, jit_enable=jit)
    list(rta.constraints.values())[1].enabled = ctx.flag('en1')
    ctx.check('constraints_at_last_state' not in rta.generate_info(), 'nothing was filtered yet')

    def expect(x, key, pars=None):
        info = rta.generate_info()
        ctx.check(key in info and ('constraints' in info) != ('constraints_at_last_state' in info), 'the values are labelled with the state they belong to')
        v = info[key]
        ctx.check(list(v.keys()) == ['con0', 'con1'], 'every constraint is reported under its name')
        for i in range(2):
            ctx.close(v[f'con{i}'], sp.h(i, x, pars) - sp.bias(i), 'the reported value is the margin at that state')

    x0 = sp.x
    quiet(rta.filter_control, given(x0, io), 0.5, nparr([ctx.real('d0', -3, 3)]))
    expect(x0, 'constraints_at_last_state')
    y = [ctx.real('y0', -3, 3), ctx.real('y1', -3, 3)]
    rta.update_constraint_values(given(y, io))
    expect(y, 'constraints')
    pars = [{**sp.pars[0], 'c': ctx.real('nc', -4, 4)}, sp.pars[1]]
    sp.set_params(list(rta.constraints.values())[0], 0, pars[0])
    rta.update_constraint_values(given(x0, io))
    expect(x0, 'constraints', pars)
    quiet(rta.filter_control, given(y, io), 0.5, nparr([ctx.real('d1', -3, 3)]))
    expect(y, 'constraints_at_last_state', pars)
    con = list(rta.constraints.values())[0]
    pars = [{**sp.pars[0], 'c': ctx.real('nc2', -4, 4), 'w': [ctx.real(f'nw{j}', -2, 2) for j in range(2)]}, sp.pars[1]]
    con.params = {'c': pj(pars[0]['c']), 'w': jarr(pars[0]['w'])}
    rta.update_constraint_values(given(x0, io))
    expect(x0, 'constraints', pars)
    con.enabled = False
    rta.update_constraint_values(given(y, io))
    expect(y, 'constraints', pars)


# -------------------------------------------------------------------------------------------- selection
@harness('C20', quick=[dict(kind=k, use=u, jit=j) for k, u, j in (('esim', ['con1'], True), ('isim', ['con2', 'con0'], True), ('easif', ['con1'], True), ('easif', ['con2', 'con0'], False), ('iasif', ['con1', 'nonsense'], True), ('dasif', ['con0', 'con2'], True),
                                                                  ('esim', ['nonsense'], True), ('easif', [], True), ('dasif', ['con0x'], True), ('easif', None, True), ('isim', ['con'], True), ('dasif', ['con2'], False))] +
         [dict(kind='easif', use=['con1'], jit=True, nd=1), dict(kind='iasif', use=['con2'], jit=False, nd=1), dict(kind='easif', use=['con2', 'con0'], jit=True, nd=2)],
         bounds='three constraints with symbolic coefficients, the listed selections; one call')
def selection(ctx, kind, use, jit, nd=0):
    """Selecting constraints: the filter behaves as one defined with just the selected constraints, in their original order (direct
    linear constraints on the control always apply); selecting none that exist is rejected at construction."""
    from vf.harness import c04_simplex, c08_asif, c13_discrete
    names = ['con0', 'con1', 'con2']
    keep = names if use is None else [n for n in names if n in use]
    cons = ('aff', 'quad', 'aff')
    kw = [{'bias': 0.25, 'slack_priority_scale': 100.0 if kind == 'easif' else None}, {}, {}]
    sp = Spec(ctx, n=2, m=1, plant='conc', cons=cons, con_kw=kw, xmax=3, clo=-1, chi=1)
    ck = {'constraints_to_use': use, 'jit_enable': jit}
    if not keep:
        try:
            build(sp, kind, **ck)
            ctx.fail('a selection of no known constraint is rejected')
        except ValueError:
            ctx.check(True, 'a selection of no known constraint is rejected')
        return
    idx = [names.index(n) for n in keep]
    d = [ctx.real('d0', -3, 3)]
    if kind in ('esim', 'isim'):
        rta = build(sp, kind, **ck)
        ctx.check(list(rta.constraints.keys()) == keep, 'the selected constraints are in use, in their order')
        ref = c04_simplex.Ref(sp, 'explicit' if kind == 'esim' else 'implicit', 1.0)
        ref.en = [i in idx for i in range(3)]
        c04_simplex.one_call(ctx, rta, ref, sp.x, d, sp.dt)
        return
    if kind == 'dasif':
        conds = lambda z: [c13_discrete.dcbf(sp, i, sp.x, z, sp.dt) for i in idx]
        z = ctx.real('z', -3, 3)
        rta = build(sp, kind, solver_exception=True, **ck)
        ctx.check(list(rta.constraints.keys()) == keep, 'the selected constraints are in use, in their order')
        if ctx.symbolic:
            from vf import npsym, stubs
            got = []
            ctx.min_handler = lambda call: (got.append(call), stubs.OptRes(npsym.as_symnd(d), True))[1]
            rta.filter_control(nparr(sp.x), sp.dt, nparr(d))
            cap = [v for _, v in got[0].cons([z])] + got[0].bound_rows([z])
            refc = conds([z]) + [z + 1, 1 - z]
            for c in cap:
                ctx.check(Implies(And([v >= 0 for v in refc]), c >= -qp.MARGIN), 'no further condition is imposed')
            for v in refc:
                ctx.check(Implies(And([c >= 0 for c in cap]), v >= -qp.MARGIN), 'every selected condition is imposed')
        else:
            for des in (d, [z]):
                try:
                    rta = build(sp, kind, solver_exception=True, **ck)
                    got = vals(rta.filter_control(nparr(sp.x), sp.dt, nparr(des)))
                except R.utils.SolverError:
                    got = None
                r = c13_discrete.reference(sp, [lambda v, i=i: c13_discrete.dcbf(sp, i, sp.x, list(v), sp.dt) for i in idx], 1, 0, des, [], [-1], [1])
                ctx.check((got is None) == (r is None) or 1 in idx, 'selected conditions')
                if got is not None and r is not None:
                    ctx.close(got, r[0], 'selected conditions', tol=4e-3)
        return
    ns = 1 if kind == 'easif' and 0 in idx else 0
    rows = qp.bound_rows(1, ns, sp.clo, sp.chi)
    for i in idx:
        if kind == 'easif':
            rows.append(c08_asif.explicit_row(sp, i, sp.x, slack=0 if i == 0 and ns else None, ns=ns))
        else:
            pts, S = c08_asif.sens(sp, sp.x, 2, sp.dt)
            rows += [r for r, _ in c08_asif.implicit_rows(sp, i, sp.x, pts, S, None, 0)]
    dd = c08_asif.direct_of(ctx, nd, 1)
    rows += [qp.Row(list(a) + [0.0] * ns, b + e * sp.x[0]) for a, b, e in dd]

    def mk():
        rta = build(sp, kind, solver_exception=True, direct=c08_asif.direct_dict(dd), **ck)
        if list(rta.constraints.keys()) != keep:
            ctx.fail('the selected constraints are in use, in their order')
        return rta

    qp.check_filter(ctx, mk, sp.x, sp.dt, 1, rows, [100.0] * ns, lo=sp.clo, hi=sp.chi, objective=bool(ns))
