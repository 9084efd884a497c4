"""Shipped docking examples (2d, 3d, 1d integrator)"""
from vf import qp, zoo
from vf.env import R
from vf.gen import *
from vf.lib import *
from vf.registry import harness


def mod(dim):
    return {2: R.docking_2d, 3: R.docking_3d}[dim]


def states(ctx, dim, pmax=2000, vmax=12, name='x'):
    return [ctx.real(f'{name}{i}', -pmax, pmax) for i in range(dim)] + [ctx.real(f'{name}{dim+i}', -vmax, vmax) for i in range(dim)]


def cls(dim, kind):
    return getattr(mod(dim), f'Docking{dim}d' + {'esim': 'ExplicitSwitchingRTA', 'isim': 'ImplicitSwitchingRTA', 'easif': 'ExplicitOptimizationRTA', 'iasif': 'ImplicitOptimizationRTA'}[kind])


def sysargs(ctx, dim, custom):
    """constructor arguments and the reference system"""
    if not custom:
        return {}, zoo.docking(dim), zoo.N0, float(zoo.M0)
    v0, d0 = ctx.real('v0', 0, 2), ctx.real('d0', 0, 50)
    lims = [ctx.real(f'lim{i}', 0.5, 20) for i in range(dim)]
    n, m = 0.0625, 5.0
    kw = dict(v0=pj(v0), v1_coef=3.0, v0_distance=pj(d0), n=n, m=m, x_vel_limit=pj(lims[0]), y_vel_limit=pj(lims[1]))
    if dim == 3:
        kw['z_vel_limit'] = pj(lims[2])
    return kw, zoo.docking(dim, v0, 3.0 * n, d0, lims), n, m


def neighbour(dim, kind):
    """another filter of the same class, for another vehicle, whose parameters change"""
    kw = dict(v0=0.875, v1_coef=7.0, v0_distance=11.0, n=0.125, m=3.0, x_vel_limit=2.5, y_vel_limit=3.5)
    rta = cls(dim, kind)(**kw)
    for c in rta.constraints.values():
        for k in list(c.params):
            c.params[k] = 0.625
        c.bias, c.enabled = 0.375, False
    return rta


@harness(['C22', 'C15'], quick=[dict(dim=d, kind=k, custom=c) for d in (2, 3) for k, c in (('easif', False), ('esim', True), ('isim', False), ('iasif', True))],
         bounds='positions within 2000 m, velocities within 12 m/s; default parameters, or symbolic speed-limit and velocity-limit parameters')
def docking_constraints(ctx, dim, kind, custom, other=False):
    """Docking examples: the constraints in use are the relative-velocity limit v0 + v1 (|p| - d0) - |v| and the per-axis velocity limits,
    with the documented parameters, gradients and margins."""
    kw, ref, n, m = sysargs(ctx, dim, custom)
    rta = cls(dim, kind)(**kw)
    if other:
        neighbour(dim, kind)
    x = states(ctx, dim)
    st = jarr(x)
    ctx.check(sorted(rta.constraints.keys()) == sorted(ref.keys()), 'the documented constraints are in use')
    for k, c in rta.constraints.items():
        want = ref[k].h(x)
        ctx.close(ctx.numbers(lambda c=c: val(c(st, c.params)), f'value of {k}'), want, f'value of {k}')
        ctx.close(val(c.phi(st, c.params)), ref[k].raw(x), f'margin of {k}')
        ctx.close(vals(c.grad(st, c.params)), ref[k].grad(x), f'gradient of {k}')
        z = ctx.real('z', -2, 2)
        ctx.close(val(c.alpha(pj(z))), zoo.poly(ref[k].alpha, z), f'strengthening of {k}')


@harness('C22', quick=[dict(dim=d, kind=k, custom=c, method=me) for d in (2, 3) for k, c, me in (('easif', False, None), ('iasif', True, None), ('esim', False, 'Euler'), ('isim', True, 'Euler'), ('esim', True, 'RK45'))],
         bounds='positions within 2000 m, velocities within 12 m/s, controls within 5 N, steps of 1 s; default and other mass and mean motion')
def docking_dynamics(ctx, dim, kind, custom, method, other=False):
    """Docking examples: predictions and the control-affine model follow the Clohessy-Wiltshire-Hill equations with the given mass and mean
    motion."""
    kw, _, n, m = sysargs(ctx, dim, custom)
    if method:
        kw['integration_method'] = method
    rta = cls(dim, kind)(**kw)
    if other:
        neighbour(dim, kind)
    x = states(ctx, dim)
    u = [ctx.real(f'u{i}', -5, 5) for i in range(dim)]
    if kind in ('easif', 'iasif'):
        f, g = vals(rta.state_transition_system(jarr(x))), rta.state_transition_input(jarr(x))
        tot = add(f, vals(g @ jarr(u)))
        ctx.close(tot, zoo.cwh_xdot(x, u, n, m, dim), 'the state derivative is that of the Clohessy-Wiltshire-Hill equations')
    else:
        step = zoo.euler if method == 'Euler' else zoo.rk4
        out = vals(rta._pred_state(jarr(x), 1.0, jarr(u)))
        ctx.close(out, step(lambda a, b: zoo.cwh_xdot(a, b, n, m, dim), x, u, 1.0), 'the predicted state follows the Clohessy-Wiltshire-Hill equations', tol=2e-2 if method == 'RK45' else 1e-6)


@harness(['C22', 'C08'], quick=[dict(dim=2, near=False), dict(dim=2, near=True), dict(dim=3, near=False)],
         bounds='default parameters; states as above (or within 10 m and 1 m/s), desired controls in [-5,5]')
def docking_filter(ctx, dim, near):
    """Docking examples, explicit optimisation: the admissible thrusts are those within +-1 meeting the barrier conditions of the documented
    constraints under the orbital dynamics."""
    ref = zoo.docking(dim)
    x = states(ctx, dim, 10, 1) if near else states(ctx, dim)
    f = zoo.cwh_f(x, zoo.N0, dim)
    cols = [[(1 / zoo.M0 if r == dim + j else 0.0) for r in range(2 * dim)] for j in range(dim)]
    rows = qp.bound_rows(dim, 0, [-1.0] * dim, [1.0] * dim) + [c.row(x, f, cols) for c in ref.values()]
    qp.check_filter(ctx, lambda: cls(dim, 'easif')(solver_exception=True), x, 1.0, dim, rows, lo=[-1.0] * dim, hi=[1.0] * dim)


@harness(['C22'], quick=[dict(dim=d, kind=k, window=w) for d, k, w in ((2, 'esim', 0), (3, 'esim', 0), (2, 'isim', 1))],
         bounds='positions within 2000 m, velocities within 3 m/s, desired controls within 3; Euler steps of 1 s, backup windows of 0-1 s')
def docking_switching(ctx, dim, kind, window):
    """Docking examples, switching: the backup (velocity-nulling feedback within +-1) takes over exactly when the predicted trajectory
    leaves a documented constraint."""
    ref = zoo.docking(dim)
    x = states(ctx, dim, 2000, 3)
    d = [ctx.real(f'd{i}', -3, 3) for i in range(dim)]
    kw = {'backup_window': window} if kind == 'isim' else {}
    rta = cls(dim, kind)(integration_method='Euler', **kw)
    K = zoo.lqr(dim, zoo.N0, zoo.M0)
    back = lambda s: [clipv(-dot(r[dim:], s[dim:]), -1.0, 1.0) for r in K]
    xd = lambda a, b: zoo.cwh_xdot(a, b, zoo.N0, float(zoo.M0), dim)
    dc = [clipv(v, -1.0, 1.0) for v in d]
    p = zoo.euler(xd, x, dc, 1.0)
    pts = [p]
    for _ in range(int(window)):
        p = zoo.euler(xd, p, back(p), 1.0)
        pts.append(p)
    out = vals(rta.filter_control(nparr(x), 1.0, nparr(d)))
    obs = bool(rta.intervening)
    hs = [c.h(q) for q in pts for c in ref.values()]
    ctx.check(Implies(obs, Or([h < 1e-6 for h in hs])), 'the backup takes over only when the prediction is unsafe')
    ctx.check(Implies(Not(obs), And([h >= -1e-6 for h in hs])), 'the backup takes over whenever the prediction is unsafe')
    ctx.close(out, back(x) if obs else dc, 'the velocity-nulling backup control or the bounded desired control is returned', tol=1e-5)


# ------------------------------------------------------------------------------------------------ 1d integrator
def I1(kind):
    return getattr(R.integrator_1d, 'Integrator1dDocking' + {'esim': 'ExplicitSwitchingRTA', 'isim': 'ImplicitSwitchingRTA', 'easif': 'ExplicitOptimizationRTA', 'iasif': 'ImplicitOptimizationRTA'}[kind])


@harness('C22', quick=[dict(kind='esim', m=1.0), dict(kind='esim', m=2.0), dict(kind='isim', m=1.0, window=2), dict(kind='isim', m=1.0, window=1)],
         bounds='positions in [-20,5], velocities in [-6,6], desired controls in [-3,3]; Euler steps of 1 s')
def integrator_switching(ctx, kind, m, window=2):
    """1d docking example, switching: full braking takes over exactly when the predicted state (or braking trajectory) passes the stopping
    condition -2x - v^2 >= 0 (or the dock x <= 0)."""
    kw = {'backup_window': window} if kind == 'isim' else {}
    rta = I1(kind)(m=m, **kw)
    x = [ctx.real('x0', -20, 5), ctx.real('x1', -6, 6)]
    d = ctx.real('d0', -3, 3)
    dc = clipv(d, -1.0, 1.0)
    xd = lambda s, u: [s[1], u[0] / m]
    p = zoo.euler(xd, x, [dc], 1.0)
    pts = [p]
    if kind == 'isim':
        for _ in range(window):
            p = zoo.euler(xd, p, [-1.0], 1.0)
            pts.append(p)
        bad = Or([-q[0] < 0 for q in pts])
    else:
        bad = -2 * p[0] - p[1] * p[1] < 0
    out = vals(rta.filter_control(nparr(x), 1.0, nparr([d])))
    obs = bool(rta.intervening)
    ctx.iff(obs, bad, 'braking takes over exactly when the prediction is unsafe')
    ctx.close(out, [-1.0 if obs else dc], 'full braking or the bounded desired control is returned')


@harness('C22', quick=[dict(kind='easif', m=1.0), dict(kind='easif', m=2.0), dict(kind='iasif', m=1.0, window=2)],
         bounds='positions in [-20,5], velocities in [-6,6], controls in [-5,5]')
def integrator_filter(ctx, kind, m, window=2):
    """1d docking example, optimisation: the admissible thrusts are those within +-1 meeting the barrier condition of the stopping condition
    (explicit), or of the dock at the worst point of the braking trajectory (implicit)."""
    x = [ctx.real('x0', -20, 5), ctx.real('x1', -6, 6)]
    rows = qp.bound_rows(1, 0, [-1.0], [1.0])
    if kind == 'easif':
        con = zoo.Con(lambda s: -2 * s[0] - s[1] * s[1], lambda s: [-2.0, -2 * s[1]], (0, 1, 0, 30))
        rows.append(con.row(x, [x[1], 0.0], [[0.0, 1 / m]]))
        mk = lambda: I1(kind)(m=m, solver_exception=True)
    else:
        from vf.harness.c08_asif import count_lt
        pts, S = [x], [[[1.0, 0.0], [0.0, 1.0]]]
        for _ in range(window):
            p = pts[-1]
            pts.append([p[0] + p[1], p[1] - 1.0 / m])
            Q = S[-1]
            S.append([[Q[0][0] + Q[1][0], Q[0][1] + Q[1][1]], Q[1]])
        hs = [-p[0] for p in pts]
        for k, (p, s) in enumerate(zip(pts, S)):
            h = -p[0]
            row = [-s[0][0], -s[0][1]]
            must = count_lt(hs, k, False) <= 0
            may = count_lt(hs, k, True) <= 0
            rows.append(qp.Row([row[1] / m], -(row[0] * x[1]) - zoo.poly((0, 10, 0, 30), h), must, may))
        mk = lambda: I1(kind)(m=m, backup_window=window, solver_exception=True)
    qp.check_filter(ctx, mk, x, 1.0, 1, rows, lo=[-1.0], hi=[1.0])
