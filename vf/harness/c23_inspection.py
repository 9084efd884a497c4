"""Shipped inspection examples (one against one, several deputies)"""
from vf import qp, zoo
from vf.env import R
from vf.gen import *
from vf.lib import *
from vf.registry import harness

UMAX = 1.0
BASE = dict(m=12.0, n=zoo.N0, chief_radius=5.0, deputy_radius=5.0, v0=0.2, v1_coef=2.0, v0_distance=0.0, r_max=1000.0, fov=60 * math.pi / 180, vel_limit=1.0, sun_vel=-zoo.N0)
OTHER = dict(BASE, m=5.0, n=0.015625, v0=0.5, v1_coef=3.0, r_max=100.0, fov=1.25, vel_limit=0.75, sun_vel=0.03125)
SLOW = dict(OTHER, m=8.0, v0=0.125, v1_coef=1.0, r_max=20.0)      # v0 + v1 r_max is below the velocity limit


def config(ctx, custom):
    """constructor arguments, configuration values"""
    if not custom:
        return {}, dict(BASE)
    c = dict(SLOW if custom == 'slow' else OTHER)
    for k, lo, hi in (('chief_radius', 1, 8), ('deputy_radius', 1, 8), ('v0_distance', 0, 20)):
        c[k] = ctx.real(k, lo, hi)
    return {k: pj(v) for k, v in c.items()}, c


def a_max(c):
    vmax = min(c['vel_limit'], c['v0'] + c['v1_coef'] * c['n'] * c['r_max'])
    return UMAX / c['m'] - 3 * c['n']**2 * c['r_max'] - 2 * c['n'] * vmax


# ---------------------------------------------------------------------------------------------- references
def away(dp, dv, gap, k, s):
    """braking-distance margin: +-sqrt(k |gap|) + s * (rate of change of the distance)"""
    rate = s * dot(dp, dv) / norm(dp)
    return branch(gap >= 0, lambda: sqrt(k * gap) + rate, lambda: rate - sqrt(-k * gap))


def chief(c, a, alpha=(0, 0.01, 0, 0.001)):
    rr = c['chief_radius'] + c['deputy_radius']
    return zoo.Con(lambda x: away(x[0:3], x[3:6], norm(x[0:3]) - rr, 2 * a, 1.0), None, alpha, phi=lambda x: norm(x[0:3]) - rr)


def rmax(c, a, alpha=(0, 0.01, 0, 0.001), bias=0.0):
    return zoo.Con(lambda x: away(x[0:3], x[3:6], c['r_max'] - norm(x[0:3]), 2 * a, -1.0), None, alpha, bias, phi=lambda x: c['r_max'] - norm(x[0:3]))


def deputy(c, a, i):
    rr = 2 * c['deputy_radius']
    rel = lambda x: (sub(x[0:3], x[6 * i:6 * i + 3]), sub(x[3:6], x[6 * i + 3:6 * i + 6]))
    return zoo.Con(lambda x: away(*rel(x), norm(rel(x)[0]) - rr, 4 * a, 1.0), None, (0, 0.01, 0, 0.001), phi=lambda x: norm(rel(x)[0]) - rr)


def sunvec(t):
    return [-cos(t), -sin(t), 0.0]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def unit(v):
    n = norm(v)
    return [x / n for x in v]


def cone(c, a, pv, alpha=(0, 0.001, 0, 0.0001), bias=-0.001):
    th = c['fov'] / 2
    if not conc(th):  # constants enter the encoding with limited precision
        from vf import sym
        th = float(sym.snap(c['fov'])) / 2
    ct, st, tt = (float(f(th)) for f in (jnp.cos, jnp.sin, jnp.tan))
    w = [0.0, 0.0, c['sun_vel']]

    def h(x):
        p, v, cv = pv(x)
        cu = unit(cv)
        ax = dot(p, cu)
        pc = sub(p, scale(ax, cu))
        r = norm(pc)
        mult = ct * (r - tt * ax)
        proj = add(add(p, scale(mult * st, cu)), [mult * ct * (-q) / r for q in pc])
        dp, dv = sub(p, proj), sub(v, cross(w, proj))
        d = norm(p) * sin(acos(dot(cu, unit(p))) - th)
        rate = dot(dp, dv) / d
        return branch(d >= 0, lambda: sqrt(2 * a * d) + rate, lambda: rate - sqrt(-2 * a * d))

    def phi(x):
        p, v, cv = pv(x)
        return acos(dot(unit(p), unit(cv))) - th

    return zoo.Con(h, None, alpha, bias, phi)


def own(x):
    return x[0:3], x[3:6], sunvec(x[6])


def versus(i):

    def pv(x):
        s = sunvec(x[-1])
        p, v = sub(x[0:3], x[6 * i:6 * i + 3]), sub(x[3:6], x[6 * i + 3:6 * i + 6])
        sg = where(acos(dot(unit(p), unit(s))) > math.pi / 2, -1.0, 1.0)
        return scale(sg, p), scale(sg, v), s

    return pv


def stm(n, t):
    """free drift position rows over t seconds (matrix exponential of the orbital dynamics)"""
    import scipy.linalg
    A = np.array([zoo.cwh_f([1.0 if i == j else 0.0 for i in range(6)], n, 3) for j in range(6)], dtype=float).T
    return [[float(v) for v in r] for r in scipy.linalg.expm(A * t)]


def drift(n, x, ts, rr):
    return [norm(matvec(stm(n, t)[:3], x)) - rr for t in ts]


def psm(c, rr, steps=100, dt=1.0, rel=None, alpha=(0, 0.01, 0, 0.001)):
    rel = rel or (lambda x: x[:6])
    return zoo.Con(lambda x: minv(*drift(c['n'], rel(x), [dt * (k + 1) for k in range(steps)], rr)), None, alpha)


VA = (0, 0.1, 0, 0.01)


def reference(kind, c, nd=2, hocbf=False):
    a = a_max(c)
    rr = c['chief_radius'] + c['deputy_radius']
    v1 = c['v1_coef'] * c['n']
    vel = [(f'{k}_vel', zoo.mag(3 + i, c['vel_limit'], VA, -0.001)) for i, k in enumerate('xyz')]
    if kind == '1v1':
        out = [('rel_vel', zoo.rel_vel(3, c['v0'], v1, c['v0_distance'], (0, 0.05, 0, 0.005), -0.001)), ('sun', cone(c, a, own)), ('r_max', rmax(c, a, bias=-0.001)), ('PSM', psm(c, rr))] + vel
        if hocbf:
            dist = lambda x: norm(x[0:3]) - rr
            out.append(('chief_collision_hocbf', zoo.Con(lambda x: dot(x[0:3], x[3:6]) / norm(x[0:3]) + zoo.poly((0, 0.1, 0, 0.1), dist(x)), None, (0, 0.1, 0, 0.1), phi=dist)))
        else:
            out.append(('chief_collision', chief(c, a)))
    elif kind == 'discrete':
        al = (0, 0.001, 0, 0.001)
        out = [('chief_collision', chief(c, a)), ('rel_vel', zoo.rel_vel(3, c['v0'], v1, c['v0_distance'], (0, 0.01, 0, 0.001), -0.001)), ('sun', cone(c, a, own, al)), ('r_max', rmax(c, a, al, -0.001)),
               ('PSM', psm(c, rr, alpha=al))] + vel
    else:
        out = [('chief_collision', chief(c, a)), ('rel_vel', zoo.rel_vel(3, c['v0'], v1, c['v0_distance'], (0, 0, 0, 0.1), -0.002)), ('chief_sun', cone(c, a, lambda x: (x[0:3], x[3:6], sunvec(x[-1])))), ('r_max', rmax(c, a)),
               ('PSM', psm(c, rr))] + vel
        for i in range(1, nd):
            out += [(f'deputy_collision_{i}', deputy(c, a, i)), (f'deputy_sun_{i}', cone(c, a, versus(i), (0, 0, 0, 0.1))),
                    (f'deputy_PSM_{i}', psm(c, 2 * c['deputy_radius'], rel=lambda x, i=i: sub(x[0:6], x[6 * i:6 * i + 6])))]
    return OrderedDict(out)


def build(kind, kw, nd=2, hocbf=False, **more):
    if kind == '1v1':
        return R.inspection_1v1.Inspection1v1RTA(use_hocbf=hocbf, **kw, **more)
    if kind == 'discrete':
        return R.inspection_1v1.DiscreteInspection1v1RTA(**kw, **more)
    return R.inspection_3d.InspectionRTA(num_deputies=nd, **kw, **more)


def neighbour(kind, nd):
    """another filter of the same class, for another spacecraft, whose parameters change"""
    kw = dict(m=3.0, n=0.125, chief_radius=3.0, deputy_radius=2.0, v0=0.375, v1_coef=3.0, v0_distance=4.0, r_max=333.0, fov=0.5, vel_limit=0.75, sun_vel=-0.25)
    rta = build(kind, kw, nd + 1)
    for c in rta.constraints.values():
        for k in list(c.params):
            c.params[k] = 0.625
        c.bias, c.enabled = 0.375, False
    return rta


def state(ctx, kind, nd, pmax, vmax=2, name='x'):
    x = []
    for a in range(1 if kind != '3d' else nd):
        x += [ctx.real(f'{name}{6*a+i}', -pmax, pmax) for i in range(3)] + [ctx.real(f'{name}{6*a+3+i}', -vmax, vmax) for i in range(3)]
    x.append(ctx.real(f'{name}sun', -7, 7))
    if kind != '3d':
        x.append(ctx.real(f'{name}dv', 0, 50))
    return x


GROUPS = {'simple': ('rel_vel', 'r_max', 'x_vel', 'y_vel', 'z_vel', 'chief_collision', 'chief_collision_hocbf', 'deputy_collision_1', 'deputy_collision_2'), 'sun': ('sun', 'chief_sun'), 'psm': ('PSM', ), 'dsun': ('deputy_sun_1', ),
          'dpsm': ('deputy_PSM_1', )}


@harness('C23', quick=[dict(kind='1v1', custom=c, hocbf=h, group=g) for c, h, g in ((False, False, 'simple'), (True, True, 'simple'), (True, False, 'simple'), (False, False, 'sun'), (True, False, 'sun'), (False, False, 'psm'), (True, False, 'psm'), ('slow', False, 'simple'))] +
         [dict(kind='discrete', custom=c, group=g) for c in (False, True, 'slow') for g in ('simple', 'sun') if (c, g) != ('slow', 'sun')] + [dict(kind='discrete', custom=True, group='psm')] +
         [dict(kind='3d', custom=c, group=g, nd=n) for c, g, n in ((False, 'simple', 2), (True, 'simple', 3), (True, 'sun', 2), (True, 'dsun', 2), (False, 'psm', 1), (True, 'dpsm', 2), ('slow', 'simple', 2))],
         bounds='positions within 1500 m (150 m with the other parameters), velocities within 2 m/s, any sun angle; 1-3 deputies; default parameters, or symbolic radii '
         'and distances with other mass, mean motion, limits')
def inspection_constraints(ctx, kind, custom, group, nd=2, hocbf=False, other=False):
    """Inspection examples: the constraints in use, their values, unbiased margins and strengthening functions are the documented ones."""
    kw, c = config(ctx, custom)
    ref = reference(kind, c, nd, hocbf)
    rta = build(kind, kw, nd, hocbf)
    if other:
        neighbour(kind, nd)
    ctx.check(sorted(rta.constraints.keys()) == sorted(ref.keys()), 'the documented constraints are in use')
    x = state(ctx, kind, nd, 150 if custom else 1500)
    ctx.assume(norm2(x[0:3]) >= 0.25)
    st = jarr(x)
    a = a_max(c)
    for k, con in rta.constraints.items():
        if k not in GROUPS[group]:
            continue
        if k.startswith('deputy'):
            i = int(k[-1])
            ctx.assume(norm2(sub(x[0:3], x[6 * i:6 * i + 3])) >= 0.25)
        want = ref[k].h(x)
        got = ctx.numbers(lambda con=con: val(con(st, con.params)), f'value of {k}')
        ctx.close(got, want, f'value of {k}', tol=1e-5)
        ctx.close(val(con.phi(st, con.params)), ref[k].phi(x), f'margin of {k}', tol=1e-5)
        z = ctx.real('z', -2, 2)
        ctx.close(val(con.alpha(pj(z))), zoo.poly(ref[k].alpha, z), f'strengthening of {k}')
        if hasattr(con, 'get_array'):
            i = int(k[-1]) if k.startswith('deputy') else 0
            rel = sub(x[0:6], x[6 * i:6 * i + 6]) if i else x[0:6]
            rr = 2 * c['deputy_radius'] if i else c['chief_radius'] + c['deputy_radius']
            arr = con.get_array(st, con.params)
            ctx.check(tuple(arr.shape) == (101, ), 'the drift is reported at all steps')
            ctx.close(vals(arr), drift(c['n'], rel, [1.0 * q for q in range(101)], rr), f'drift distances of {k}', tol=1e-5)
        if 'a_max' in con.params:
            ctx.close(val(con.params['a_max']), a, f'available acceleration of {k}', tol=1e-9)


@harness('C23', quick=[dict(kind=k, custom=c, nd=n) for k, c, n in (('1v1', False, 1), ('1v1', True, 1), ('3d', False, 3), ('3d', True, 1), ('3d', True, 2))],
         bounds='positions within 1500 m, velocities within 2 m/s, controls within 5 N; 1-3 deputies; default and other mass, mean motion, sun velocity')
def inspection_dynamics(ctx, kind, custom, nd, other=False):
    """Inspection examples: the control-affine model follows the orbital equations with the given mass and mean motion; the sun angle moves
    at the given rate and other deputies drift."""
    kw, c = config(ctx, custom)
    rta = build(kind, kw, nd)
    if other:
        neighbour(kind, nd)
    x = state(ctx, kind, nd, 1500)
    u = [ctx.real(f'u{i}', -5, 5) for i in range(3)]
    st = jarr(x)
    f, g = vals(rta.state_transition_system(st)), rta.state_transition_input(st)
    tot = add(f, vals(g @ jarr(u)))
    exp = []
    for a in range(nd):
        exp += zoo.cwh_xdot(x[6 * a:6 * a + 6], u if a == 0 else [0.0] * 3, c['n'], c['m'], 3)
    exp += [c['sun_vel']] + ([0.0] if kind == '1v1' else [])
    ctx.close(tot, exp, 'the state derivative is that of the orbital equations')
    if kind == '1v1':
        xd = vals(rta.compute_state_dot(st, 0.0, jarr(u)))
        ctx.close(xd, exp[:7] + [sum(absv(v) for v in u) / c['m']], 'the simulated derivative adds the used delta-v')
        ctx.close(vals(rta.compute_state_dot_cwh(jarr(x[:6]), 0.0, jarr(u))), exp[:6], 'the derivative without sun and delta-v')


def away_grad(x, i, gap, k, s):
    """gradient over the whole state of the braking-distance margin against the centre (i=0) or deputy i"""
    p, v = (x[0:3], x[3:6]) if i == 0 else (sub(x[0:3], x[6 * i:6 * i + 3]), sub(x[3:6], x[6 * i + 3:6 * i + 6]))
    r = norm(p)
    pv = dot(p, v)
    rate = [s * (w / r - pv * q / (r * r * r)) for q, w in zip(p, v)]
    gp = [branch(gap >= 0, lambda: s * k / (2 * sqrt(k * gap)) * q / r + t, lambda: s * k / (2 * sqrt(-k * gap)) * q / r + t) for q, t in zip(p, rate)]
    gv = [s * q / r for q in p]
    out = [0.0] * len(x)
    out[0:3], out[3:6] = gp, gv
    if i:
        out[6 * i:6 * i + 3], out[6 * i + 3:6 * i + 6] = scale(-1, gp), scale(-1, gv)
    return out


def gap_of(k, x, c):
    if k == 'chief_collision':
        return norm(x[0:3]) - (c['chief_radius'] + c['deputy_radius'])
    if k == 'r_max':
        return c['r_max'] - norm(x[0:3])
    i = int(k[-1])
    return norm(sub(x[0:3], x[6 * i:6 * i + 3])) - 2 * c['deputy_radius']


def inspection_row(k, con, x, c, a, f, cols):
    if k in ('chief_collision', 'r_max') or k.startswith('deputy_collision'):
        i = int(k[-1]) if k.startswith('deputy') else 0
        con.grad = lambda s: away_grad(s, i, gap_of(k, s, c), (4 if i else 2) * a, -1.0 if k == 'r_max' else 1.0)
    if k == 'chief_collision_hocbf':
        p, v = x[0:3], x[3:6]
        r = norm(p)
        z = r - c['chief_radius'] - c['deputy_radius']
        al = 0.1 + 0.3 * z * z
        con.grad = lambda s: [w / r - dot(p, v) * q / (r * r * r) + al * q / r for q, w in zip(p, v)] + [q / r for q in p] + [0.0] * (len(x) - 6)
    return con.row(x, f, cols)


FILT = [dict(kind='1v1', custom=cu, use=u, hocbf=h) for cu, u, h in ((False, ['rel_vel', 'x_vel', 'y_vel', 'z_vel'], False), (True, ['chief_collision', 'r_max'], False), (False, ['chief_collision'], False),
                                                                     (True, ['chief_collision_hocbf', 'x_vel'], True), (True, ['r_max', 'rel_vel', 'z_vel'], False))] + \
    [dict(kind='3d', custom=cu, use=u, nd=n) for cu, u, n in ((False, ['rel_vel', 'x_vel'], 2), (False, ['r_max'], 1), (True, ['rel_vel', 'r_max'], 2), (True, ['deputy_collision_1'], 2), (True, ['chief_collision', 'deputy_collision_2'], 3), (True, ['x_vel', 'y_vel', 'z_vel'], 1))] + \
    [dict(kind='1v1', custom=True, use=['chief_collision'], short=True), dict(kind='3d', custom=True, use=['x_vel', 'rel_vel'], nd=2, short=True)]


@harness(['C23', 'C08'], quick=FILT, bounds='inspection examples with 1-3 spacecraft and subsets of the constraints (not sun or drift constraints), away from the distance boundary by 0.5 m; desired controls within 5 N')
def inspection_filter(ctx, kind, custom, use, nd=1, hocbf=False, short=False):
    """Inspection examples: the admissible thrusts are those within +-1 N meeting the barrier conditions of the documented constraints in use
    under the orbital dynamics. States without sun angle and delta-v (short) are accepted."""
    kw, c = config(ctx, custom)
    a = a_max(c)
    ref = reference(kind, c, nd, hocbf)
    x = state(ctx, kind, nd, 150 if custom else 1500)
    ctx.assume(norm2(x[0:3]) >= 0.25)
    f = []
    for i in range(nd):
        f += zoo.cwh_f(x[6 * i:6 * i + 6], c['n'], 3)
    f += [c['sun_vel']] + ([0.0] if kind == '1v1' else [])
    cols = [[(1 / c['m'] if r == 3 + j else 0.0) for r in range(len(x))] for j in range(3)]
    for k in use:
        if k == 'r_max' or k == 'chief_collision' or k.startswith('deputy'):
            if k.startswith('deputy'):
                i = int(k[-1])
                ctx.assume(norm2(sub(x[0:3], x[6 * i:6 * i + 3])) >= 0.25)
            ctx.assume(absv(gap_of(k, x, c)) >= 0.5)
    rows = qp.bound_rows(3, 0, [-1.0] * 3, [1.0] * 3) + [inspection_row(k, con, x, c, a, f, cols) for k, con in ref.items() if k in use]
    qp.check_filter(ctx, lambda: build(kind, kw, nd, hocbf, constraints_to_use=use, solver_exception=True), x[:6 * nd] if short else x, 1.0, 3, rows, lo=[-1.0] * 3, hi=[1.0] * 3)


@harness('C23', quick=[dict(custom=c, dt=dt) for c in (False, True) for dt in (1.0, 10.0, 0.5)],
         bounds='positions within 1500 m, velocities within 2 m/s, controls within 5 N, steps of 0.5, 1 and 10 s; default and other mass and mean motion')
def inspection_discrete_dynamics(ctx, custom, dt):
    """Discrete inspection example: the next state is the exact solution of the orbital equations under constant thrust."""
    import scipy.linalg
    kw, c = config(ctx, custom)
    rta = build('discrete', kw)
    x = state(ctx, 'discrete', 1, 1500)
    u = [ctx.real(f'u{i}', -5, 5) for i in range(3)]
    A = np.array([zoo.cwh_f([1.0 if i == j else 0.0 for i in range(6)], c['n'], 3) for j in range(6)], dtype=float).T
    M = np.zeros((9, 9))
    M[:6, :6] = A
    M[3:6, 6:] = np.eye(3) / c['m']
    E = [[float(v) for v in r] for r in scipy.linalg.expm(M * dt)]
    out = vals(rta.next_state_differentiable(jarr(x), dt, jarr(u)))
    ctx.close(out[:6], [dot(r, x[:6] + u) for r in E[:6]], 'the next state is the exact solution under constant thrust', tol=1e-4)
    ctx.close(out[6], x[6] + c['sun_vel'] * dt, 'the sun angle advances')


@harness('C23', quick=[dict(which=w, dt=dt, m=m, n=n) for w, dt, m, n in (('full', 1.0, 12.0, zoo.N0), ('full', 10.0, 5.0, 0.0625), ('cwh', 1.0, 12.0, zoo.N0), ('cwh', 5.0, 8.0, 0.03125))],
         bounds='any state within 1500 m and 10 m/s, thrusts in [-5,5]; the adaptive integrator is represented by classical Runge-Kutta steps between its output times')
def inspection_predicted(ctx, which, dt, m, n):
    """Inspection1v1RTA: the predicted state is the motion under constant thrust for the whole step, with the sun angle and the delta-v used."""
    import scipy.linalg
    mod = R.inspection_1v1
    rta = build('1v1', dict(m=m, n=n, sun_vel=0.03125))
    k = 8 if which == 'full' else 6
    x = state(ctx, '1v1', 1, 1500)[:k]
    u = [ctx.real(f'u{i}', -5, 5) for i in range(3)]
    real = getattr(mod, 'odeint', None)

    def steps(f, y, ts, *args, **kw):
        out = [y]
        for a, b in zip(range(ts.shape[0] - 1), range(1, ts.shape[0])):
            h, t = ts[b] - ts[a], ts[a]
            k1 = f(y, t, *args)
            k2 = f(y + h / 2 * k1, t + h / 2, *args)
            k3 = f(y + h / 2 * k2, t + h / 2, *args)
            k4 = f(y + h * k3, t + h, *args)
            y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            out.append(y)
        return jnp.stack(out)

    if ctx.symbolic and real is not None:
        mod.odeint = steps
    try:
        out = vals((rta._pred_state_fn if which == 'full' else rta._pred_state_cwh_fn)(jarr(x), dt, jarr(u)))
    finally:
        if real is not None:
            mod.odeint = real
    A = np.array([zoo.cwh_f([1.0 if i == j else 0.0 for i in range(6)], n, 3) for j in range(6)], dtype=float).T
    M = np.zeros((9, 9))
    M[:6, :6] = A
    M[3:6, 6:] = np.eye(3) / m
    E = [[float(v) for v in r] for r in scipy.linalg.expm(M * dt)]
    ctx.check(len(out) == k, 'a full state is predicted')
    ctx.close(out[:6], [dot(r, x[:6] + u) for r in E[:6]], 'the predicted motion is that under constant thrust', tol=2e-3)
    if which == 'full':
        ctx.close(out[6], x[6] + 0.03125 * dt, 'the sun angle advances')
        ctx.close(out[7], x[7] + sum((absv(v) for v in u), 0.0) / m * dt, 'the delta-v used accumulates', tol=1e-3)


FULLS = [('1v1', ['sun', 'x_vel']), ('1v1', ['rel_vel', 'r_max', 'chief_collision']), ('3d', ['chief_sun', 'rel_vel']), ('3d', ['deputy_sun_1', 'deputy_collision_1'])]


@harness('C18', quick=[dict(kind=k, use=u, first=f) for k, u in FULLS for f in ('full', 'fulls')] + [dict(kind='1v1', use=['sun', 'x_vel'], first='short'), dict(kind='3d', use=['chief_sun', 'rel_vel'], first='short'), dict(kind='1v1', use=['rel_vel', 'x_vel'], first='short')],
         bounds='1 or 2 earlier calls at other fixed states, reset, a call with arbitrary velocities at a fixed position, against a newly constructed filter')
def inspection_reset(ctx, kind, use, first):
    """Inspection examples: after reset a filter solves the program of a newly constructed one, whatever states it saw before."""
    nd = 1 if kind == '1v1' else 2
    mk = lambda: build(kind, {}, nd, False, constraints_to_use=use, solver_exception=False)
    p = [-300.0, 20.0, 5.0]
    v = [ctx.real(f'v{i}', -1, 1) for i in range(3)]
    x = p + v + ([200.0, -40.0, 80.0, 0.25, 0.0, -0.125] if nd == 2 else []) + [0.5] + ([0.0] if kind == '1v1' else [])
    old = {'short': [100.0, 20.0, 5.0, 0.0, 0.0, 0.0] + [300.0, 20.0, 5.0, 0.0, 0.0, 0.0][:6 * (nd - 1)]}
    old['full'] = old['short'] + ([2.0, 0.25] if kind == '1v1' else [2.0])
    seq = [old['full'], [w * 0.75 for w in old['full']]] if first == 'fulls' else [old[first]]
    d = [ctx.real(f'd{i}', -1, 1) for i in range(3)]
    z = [ctx.real(f'z{i}', -1, 1) for i in range(3)]

    def used():
        rta = mk()
        for s in seq:
            rta.filter_control(nparr(s), 1.0, nparr(d))
        rta.reset()
        return rta

    if not ctx.symbolic:
        for des in (d, z):
            ctx.close(qp.outcome(used, x, 1.0, des), qp.outcome(mk, x, 1.0, des), 'after reset the control is that of a new filter', tol=1e-4)
        return
    from vf import stubs
    got = []

    def q(call):
        got.append(call)
        return stubs.qp_result(call, d, ())

    ctx.qp_handler = q
    used().filter_control(nparr(x), 1.0, nparr(d))
    A = got[-1]
    mk().filter_control(nparr(x), 1.0, nparr(d))
    B = got[-1]
    label = 'after reset the control is that of a new filter'
    ctx.close(A.objective(z), B.objective(z), label)
    ra, rb = A.rows(z), B.rows(z)
    for w in ra:
        ctx.check(Implies(And([r >= 0 for r in rb]), w >= -qp.MARGIN), label, hint=qp.same(w, rb))
    for w in rb:
        ctx.check(Implies(And([r >= 0 for r in ra]), w >= -qp.MARGIN), label, hint=qp.same(w, ra))


@harness('C19', quick=[dict(dt=1.0, v=[0.25, -0.125, 0.0]), dict(dt=10.0, v=[0.0, 0.5, 0.25])],
         bounds='a fixed position and velocity, any delta-v used before, any desired control, any answer of the quadratic program within the actuator bounds; two calls, reset, one call; the delta-v limiter looks 2 steps ahead')
def inspection_cascade(ctx, dt, v):
    """InspectionCascadedRTA is the 1v1 inspection filter followed by the delta-v limiter: the limiter has the last word."""
    import scipy.linalg as sl
    from vf.harness.c02_calls import deltav, LQR
    mod = R.inspection_1v1
    ref = [build('1v1', {}), deltav()]
    real = sl.solve_continuous_are
    sl.solve_continuous_are = lambda *a, **k: LQR
    try:
        rta = mod.InspectionCascadedRTA()
    finally:
        sl.solve_continuous_are = real
    for s in rta.rta_list:
        if isinstance(s, mod.SwitchingDeltaVLimitRTA):
            s.n_steps = 2
    d = [ctx.real(f'd{i}', -2, 2) for i in range(3)]
    z = [ctx.real(f'z{i}', -2, 2) for i in range(3)]
    w = [ctx.real(f'w{i}', -1, 1) for i in range(3)]
    got = []
    if ctx.symbolic:
        from vf import stubs

        def q(call):
            got.append(call)
            return stubs.qp_result(call, w, ())

        ctx.qp_handler = q
    for call in range(3):
        if call == 2:
            rta.reset()
            for r in ref:
                r.reset()
        x = [-300.0, 20.0 + call, 5.0] + v + [0.5, ctx.real(f'dv{call}', 0, 40)]
        del got[:]
        a = vals(rta.filter_control(nparr(x), dt, nparr(d)))
        A = list(got)
        del got[:]
        u = ref[0].filter_control(nparr(x), dt, nparr(d))
        B = list(got)
        b = vals(ref[1].filter_control(nparr(x), dt, u))
        ctx.close(a, b, 'the shipped cascade is the inspection filter followed by the delta-v limiter', tol=1e-4)
        ctx.check(bool(rta.intervening) == (bool(ref[0].intervening) or bool(ref[1].intervening)), 'the shipped cascade reports an intervention of a stage')
        if ctx.symbolic and call == 0:
            ctx.check(len(A) == len(B), 'the first stage solves the program of the inspection filter')
            for p, r in zip(A, B):
                ctx.close(p.objective(z), r.objective(z), 'the first stage solves the program of the inspection filter')
                for one, two in ((p.rows(z), r.rows(z)), (r.rows(z), p.rows(z))):
                    for g in one:
                        ctx.check(Implies(And([e >= 0 for e in two]), g >= -qp.MARGIN), 'the first stage solves the program of the inspection filter', hint=qp.same(g, two))
