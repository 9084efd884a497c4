"""Discrete time ASIF"""
import warnings

from vf import qp
from vf.env import R
from vf.gen import *
from vf.harness.c08_asif import A, con_kw
from vf.lib import *
from vf.registry import harness


def dcbf(sp, i, x, u, dt, pars=None, slack=None):
    h0 = sp.h(i, x, pars)
    v = (sp.h(i, sp.step(x, u, dt), pars) - h0) / dt + A(h0)
    return v if slack is None else v - slack


def dgrad(sp, i, x, u, dt, m, ns, sl):
    g = sp.gradh(i, sp.step(x, u, dt))
    out = [dot(g, sp.gcol(x, j)) for j in range(m)] + [0.0] * ns
    if sl is not None:
        out[m + sl] = -1.0
    return out


def reference(sp, conds, m, ns, d, ws, lo, hi):
    """closest admissible control by SLSQP on the reference program (several starts); None when it fails"""
    from scipy.optimize import minimize
    w = np.array([1.0] * m + list(ws))
    t = np.array(list(map(float, d)) + [0.0] * ns)
    bnds = [(None if lo is None else lo[i], None if hi is None else hi[i]) for i in range(m)] + [(None, None)] * ns
    cons = [{'type': 'ineq', 'fun': c} for c in conds]
    r = minimize(lambda z: 0.5 * np.sum(w * (z - t)**2), t, method='SLSQP', bounds=bnds, constraints=cons, options={'maxiter': 300, 'ftol': 1e-10})
    return (r.x[:m], r.fun) if r.success else None


def discrete_case(ctx, jit=True, n=2, m=1, plant='conc', cons=('aff', 'quad'), bias=(0, 0.25), slack=(), lo=-1, hi=1, toggles=True, boundsform='scalar', dt=0.5, live=(), dt0=None, xw=False, enw=False, warms=1, io='np', other=None):
    """live: constraints whose parameters change after an earlier call; dt0, xw, enw: that call uses another step size, state, enabled set; warms: number of such calls"""
    kw = con_kw(cons, bias, slack)
    sp = Spec(ctx, n=n, m=m, plant=plant, cons=cons, con_kw=kw, dt=dt, xmax=3)
    ns = len(slack)
    en = [ctx.flag(f'en{i}') if toggles else True for i in range(len(cons))]
    los = None if lo is None else [lo - 0.5 * (i if boundsform != 'scalar' else 0) for i in range(m)]
    his = None if hi is None else [hi + 0.25 * (i if boundsform != 'scalar' else 0) for i in range(m)]
    bk = {}
    for k, v in (('control_bounds_low', los), ('control_bounds_high', his)):
        if v is not None:
            bk[k] = v[0] if boundsform == 'scalar' else (list(v) if boundsform == 'list' else nparr(v))
    prio = [kw[i]['slack_priority_scale'] for i in slack]
    d = wants(ctx, 'd', m, io, 5)
    z = [ctx.real(f'z{i}', -5, 5) for i in range(m + ns)]
    sl, sc = {}, 0
    for i in range(len(cons)):
        if i in slack:
            sl[i], sc = sc, sc + 1

    def make():
        from vf.harness.c16_live import neighbour
        if other == 'before':
            neighbour(ctx, 'discrete', jit, 0.5, False, 3 - m)
        rta = GenDiscreteASIF(sp, jit_enable=jit, solver_exception=True, **bk)
        if other == 'after':
            neighbour(ctx, 'discrete', jit, 0.5, False, m)
        for i, c in enumerate(rta.constraints.values()):
            c.enabled = en[i]
        return rta

    pars = sp.pars
    if live:
        pars = [dict(p) for p in sp.pars]
        for i in live:
            pars[i].update({'c': ctx.real(f'nc{i}', -4, 4), 'w': [ctx.real(f'nw{i}{j}', -2, 2) for j in range(n)]})

    x0 = [ctx.real(f'xw{i}', -3, 3) for i in range(n)] if xw else sp.x

    def warm(rta):
        """an earlier call with the old parameters"""
        if not (live or dt0 or xw or enw or warms > 1):
            return
        if enw:
            for e, c in zip(en, rta.constraints.values()):
                c.enabled = not e
        if ctx.symbolic:
            from vf import npsym, stubs
            ctx.min_handler = lambda call: (call.cons(call.x0), stubs.OptRes(npsym.wrap(call.x0), True))[1]
        for _ in range(warms):
            try:
                rta.filter_control(nparr(x0), dt0 or dt, nparr(d))
            except R.utils.SolverError:
                pass
        if enw:
            for e, c in zip(en, rta.constraints.values()):
                c.enabled = e
        for i in live:
            sp.set_params(list(rta.constraints.values())[i], i, pars[i])

    if not ctx.symbolic:
        for des in [d, z[:m]] if io != 'int' else [list(map(float, v[:m])) for v in WHOLE]:
            rta = make()
            warm(rta)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    got = [float(v) for v in rta.filter_control(given(sp.x, 'jax' if io == 'jax' else 'np'), dt, given(des, io))]
                except R.utils.SolverError:
                    got = None
            conds = [(lambda v, i=i: dcbf(sp, i, sp.x, list(v[:m]), dt, pars, v[m + sl[i]] if i in sl else None)) for i in range(len(cons)) if en[i]]
            refs = [reference(sp, conds, m, ns, des, ws, los, his) for ws in (prio, [np.sqrt(p) for p in prio])]
            ok = any((got is None and r is None) or (got is not None and r is not None and np.allclose(got, r[0], atol=2e-3)) for r in refs)
            if not ok and got is not None and not ns:  # another local optimum is as good when it is admissible and not farther
                w = np.array(got + [0.0] * ns)
                adm = all(c(w) >= -1e-4 for c in conds) and all(los is None or got[i] >= los[i] - 1e-9 for i in range(m)) and all(his is None or got[i] <= his[i] + 1e-9 for i in range(m))
                if adm and any(r is not None and 0.5 * np.sum((np.array(got) - np.array(des))**2) <= r[1] + 1e-3 for r in refs):
                    ok = True
            if not ok and got is None and 'quad' in cons:
                ok = True
            if not ok:
                qp.raise_violation(f'desired {list(map(float, des))}: filter gives {got}, reference gives {refs}')
        return
    from vf import npsym, stubs
    rta = make()
    warm(rta)
    got = []

    def handler(call):
        got.append(call)
        return stubs.OptRes(npsym.as_symnd([ctx.fresh('sl', -5, 5) for _ in range(call.n)]), True)

    ctx.min_handler = handler
    out = vals(rta.filter_control(given(sp.x, 'jax' if io == 'jax' else 'np'), dt, given(d, io)))
    ctx.check(len(got) == 1, 'one program is solved per call')
    call = got[0]
    ctx.check(call.n == m + ns, 'one variable per control and slack')
    # objective: a positive multiple of the squared deviation
    base = call.objective(d + [0.0] * ns)
    v = call.objective(z) - base
    dev = norm2(sub(z[:m], d))
    okk = []
    for k in (0.5, 1.0):
        for ws in (prio, [float(np.sqrt(p)) for p in prio]):
            t = k * (dev + sum((w * z[m + i] * z[m + i] for i, w in enumerate(ws)), 0.0))
            okk.append(And(v - t <= 1e-4, v - t >= -1e-4))
    ctx.check(Or(okk), 'the objective is the distance to the desired control plus the weighted slacks')
    cap = [v for _, v in call.cons(z)] + call.bound_rows(z)
    ref = [dcbf(sp, i, sp.x, z[:m], dt, pars, z[m + sl[i]] if i in sl else None) for i in range(len(cons)) if en[i]]
    ref += [r.val(z) for r in qp.bound_rows(m, ns, los, his)]
    allcap, allref = And([c >= 0 for c in cap]), And([c >= 0 for c in ref])
    for r in ref:
        ctx.check(Implies(allcap, r >= -qp.MARGIN), 'every control the program admits meets the required conditions')
    for c in cap:
        ctx.check(Implies(allref, c >= -qp.MARGIN), 'the program admits every control meeting the required conditions')
    if not live:
        for c in call.constraints:
            if callable(c.get('jac')):
                xs = npsym.as_symnd(list(z))
                jac = vals(c['jac'](xs, *c.get('args', ())))
                grads = [dgrad(sp, i, sp.x, z[:m], dt, m, ns, sl.get(i)) for i in range(len(cons)) if en[i]]
                ctx.check(Or([And([absv(a - b) <= 1e-4 for a, b in zip(jac, g)]) for g in grads] or [True]), 'derivatives handed to the optimiser are those of the conditions')


DISC = [
    dict(cons=['aff', 'quad']), dict(cons=['aff'], m=2, boundsform='list'), dict(cons=['quad'], m=2, lo=None, boundsform='array', jit=False), dict(cons=['aff', 'aff'], slack=[1], hi=None),
    dict(cons=['aff', 'aff', 'aff'], slack=[0, 2], bias=[0]), dict(cons=['aff', 'aff', 'aff'], slack=[0, 1], bias=[0], toggles=False), dict(cons=['aff', 'quad'], plant='nl', toggles=False), dict(cons=['aff', 'quad'], plant='sym', toggles=False), dict(cons=['quad'], lo=None, hi=None, dt=0.25),
]


@harness(['C13', 'C17'], quick=DISC, thorough=[dict(cons=['quad', 'aff'], plant='sym', m=2, n=3), dict(cons=['quad', 'quad'], slack=[0, 1], plant='sym')],
         bounds='linear plants (fixed, or symbolic 2x2 / 2x1 in [-2,2]), up to 3 affine/quadratic constraints with symbolic coefficients, all enabled '
         'combinations, up to 2 slacks; states in [-3,3], controls and slacks in [-5,5]; margin 1e-3')
def discrete_program(ctx, **kw):
    """DiscreteASIFModule.filter_control: the admissible controls are exactly those within the bounds for which every enabled constraint
    satisfies (h(next)-h)/dt + alpha(h) >= 0 (relaxed by its slack), and the one closest to the desired control is chosen."""
    discrete_case(ctx, **kw)


@harness('C13', quick=[dict(cons=['aff', 'quad'], dt0=0.25, toggles=False), dict(cons=['aff', 'aff'], dt0=1.0, xw=True, jit=False), dict(cons=['aff', 'aff'], slack=[1], xw=True, enw=True),
                       dict(cons=['quad'], xw=True, enw=True, m=2, boundsform='list'), dict(cons=['aff'], warms=9), dict(cons=['aff'], xw=True, warms=11, jit=False),
                       dict(cons=['aff', 'quad'], io='int', m=2), dict(cons=['aff'], io='int', jit=False, xw=True), dict(cons=['aff', 'quad'], io='jax', m=2), dict(cons=['aff'], io='jax', jit=False)],
         bounds='1-11 calls with the same or another state, step size or enabled set, then a checked call; inputs as float, integer or jax arrays')
def discrete_second(ctx, **kw):
    """DiscreteASIFModule: a later call uses its own state, step size and enabled constraints."""
    discrete_case(ctx, **kw)


@harness('C16', quick=[dict(cons=['aff', 'aff'], live=[0], toggles=False), dict(cons=['aff', 'quad'], live=[1], toggles=True, jit=False), dict(cons=['aff', 'aff'], live=[1], slack=[1], toggles=True), dict(cons=['aff', 'aff'], live=[1], toggles=False, xw=True)],
         bounds='a call, new symbolic parameters, another call at the same or another state')
def discrete_live(ctx, **kw):
    """DiscreteASIFModule: changed constraint parameters take effect on the next call."""
    discrete_case(ctx, **kw)


@harness(['C10', 'C13'], quick=[dict(exc=e, m=m, eps=ep) for e, m, ep in ((True, 1, None), (False, 1, None), (False, 2, 0.5), (True, 2, 0.1))],
         bounds='1-2 controls, two opposing conditions with symbolic offsets (overlapping or contradictory by 0.1 or more)')
def discrete_answer(ctx, exc, m, eps):
    """DiscreteASIFModule: the optimiser's answer is returned and reported as an intervention when it differs from the desired control by
    more than the threshold; when the optimiser fails the call raises the solver error (exceptions enabled) or warns."""
    sp = Spec(ctx, n=2, m=m, plant='int', cons=('aff', 'aff'), xmax=3)
    sp.pars = [{'c': ctx.real('c0', -4, 4), 'w': [0.0, 1.0]}, {'c': ctx.real('c1', -4, 4), 'w': [0.0, -1.0]}]
    kw = {} if eps is None else {'epsilon': eps}
    rta = GenDiscreteASIF(sp, solver_exception=exc, **kw)
    eps = 1e-2 if eps is None else eps
    d = [ctx.real(f'd{i}', -5, 5) for i in range(m)]
    # u0 moves x1 (double integrator): conditions  u0 >= -A(h0)  and  u0 <= A(h1)
    l, h = -A(sp.h(0, sp.x)), A(sp.h(1, sp.x))
    ctx.assume(And(absv(l - h) >= 0.1, l <= 6, l >= -6, h <= 6, h >= -6))
    good = l <= h
    u = [clipv(d[0], l, h)] + d[1:]
    junk = [ctx.real(f'j{i}', -5, 5) for i in range(m)]
    gap = absv(u[0] - d[0])
    ctx.assume(absv(gap - eps) >= 2e-3)
    if ctx.symbolic:
        from vf import npsym, stubs
        ctx.min_handler = lambda call: stubs.OptRes(npsym.as_symnd(u if good else junk), good)
    err, out = None, None
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            out = vals(rta.filter_control(nparr(sp.x), sp.dt, nparr(d)))
        except R.utils.SolverError as ex:
            err = ex
    if not ctx.symbolic and good and (err is not None or any('Solver' in str(x.message) for x in w)):
        return  # the numerical optimiser gave up on a consistent program
    if good:
        ctx.check(err is None and not any('Solver' in str(x.message) for x in w), 'a successful optimisation neither warns nor raises')
        ctx.close(out, u, 'the optimiser\'s answer is returned', tol=2e-3)
        ctx.check(bool(rta.intervening) == bool(gap > eps), 'intervention is reported exactly when the control was changed by more than the threshold')
    elif exc:
        ctx.check(err is not None, 'a failed optimisation raises the solver error')
    else:
        ctx.check(err is None and len(w) >= 1, 'a failed optimisation warns')


STATUS = {2: 'More equality constraints than independent variables', 3: 'More than 3*n iterations in LSQ subproblem', 4: 'Inequality constraints incompatible', 5: 'Singular matrix E in LSQ subproblem',
          6: 'Singular matrix C in LSQ subproblem', 7: 'Rank-deficient equality constraint subproblem HFTI', 8: 'Positive directional derivative for linesearch', 9: 'Iteration limit reached'}


@harness(['C10', 'C13'], quick=[dict(exc=e, calls=c) for e in (True, False) for c in (1, 2)], bounds='every failure status of SLSQP with any answer that comes with it; 1-2 calls')
def discrete_failures(ctx, exc, calls):
    """DiscreteASIFModule: every kind of failure the optimiser reports raises the solver error (exceptions enabled) or warns, in every call."""
    import scipy.optimize
    sp = Spec(ctx, n=2, m=1, plant='int', cons=('aff', ), xmax=3)
    rta = GenDiscreteASIF(sp, solver_exception=exc)
    status = sorted(STATUS)[ctx.choice('status', len(STATUS))]
    for k in range(calls):
        d, u = [ctx.real(f'd{k}', -5, 5)], [ctx.real(f'u{k}', -5, 5)]
        x = [ctx.real(f'x{k}_{i}', -3, 3) for i in range(2)]
        real = scipy.optimize.minimize
        here = getattr(R.asif, 'minimize', None)
        if ctx.symbolic:
            from vf import npsym, stubs
            ctx.min_handler = lambda call: stubs.OptRes(npsym.as_symnd(u), False, STATUS[status], status)
        else:
            def bad(fun, x0, *a, **kw):
                return scipy.optimize.OptimizeResult(x=np.array(u, dtype=float), success=False, status=status, message=STATUS[status], fun=0.0, nit=1)

            scipy.optimize.minimize = bad
            if here is not None:
                R.asif.minimize = bad
        err = None
        try:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                try:
                    rta.filter_control(nparr(x), sp.dt, nparr(d))
                except R.utils.SolverError as ex:
                    err = ex
        finally:
            if not ctx.symbolic:
                scipy.optimize.minimize = real
                if here is not None:
                    R.asif.minimize = here
        if exc:
            ctx.check(err is not None, 'a failed optimisation raises the solver error')
        else:
            ctx.check(err is None and len(w) >= 1, 'a failed optimisation warns')
