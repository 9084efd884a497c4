"""Several spacecraft sharing one filter; the delta-v limiter"""
from vf import qp, zoo
from vf.env import R
from vf.gen import *
from vf.harness.c02_calls import Fixed, deltav
from vf.lib import *
from vf.registry import harness


def others(x):
    return sum(((0.5 - 0.1 * i) * v for i, v in enumerate(reversed(x[6:]))), 0.0)


class Deputy(R.base.RTAModule):
    """control + sum of weighted own state + differently weighted other state entries; intervenes when the first own state entry is above a limit"""

    def __init__(self, w, lim, **kw):
        super().__init__(**kw)
        self.w, self.lim, self.seen, self.resets = w, lim, [], 0

    def reset(self):
        super().reset()
        self.resets += 1

    def compute_filtered_control(self, input_state, step_size, control_desired):
        x = vals(input_state)
        self.seen.append((x, step_size, vals(control_desired)))
        self.intervening = bool(x[0] > self.lim)
        return nparr([c + dot(self.w, x[:6]) + others(x) for c in vals(control_desired)])


def permuted(x, i):
    return x[6 * i:6 * i + 6] + x[:6 * i] + x[6 * i + 6:]


@harness('C24', quick=[dict(n=n, sun=s, calls=c, ops=o) for n, s, c, o in ((1, True, 2, []), (2, True, 2, []), (3, True, 1, []), (3, False, 1, []), (2, True, 2, ['reset']), (2, True, 3, ['disable', 'enable']))] + [dict(n=2, sun=True, calls=1, ops=[], io='int'), dict(n=3, sun=True, calls=1, ops=[], io='int'), dict(n=2, sun=True, calls=1, ops=[], io='jax'), dict(n=2, sun=True, calls=3, ops=[], same=True)],
         thorough=[dict(n=5, sun=True, calls=1, ops=[])],
         bounds='1-3 (thorough 5) spacecraft with arbitrary states and controls, 1-3 calls, a per-spacecraft filter depending on its own state, its position in the state vector and the sun angle')
def combined_routing(ctx, n, sun, calls, ops, io='np', same=False):
    """CombinedInspectionRTA: every spacecraft's control is that of the per-spacecraft filter for its own desired control at the state with
    its own part first, within the bounds; an intervention is reported exactly when it occurs for some spacecraft."""
    w = [ctx.real(f'w{i}', -1, 1) for i in range(6)]
    dep = Deputy(w, 0.5, control_bounds_low=-2.0, control_bounds_high=2.0)
    rta = R.inspection_3d.CombinedInspectionRTA(num_deputies=n, deputy_rta=dep)
    enabled = True
    for c in range(calls):
        if c and ops:
            op = ops[c - 1] if c - 1 < len(ops) else None
            if op == 'reset':
                rta.reset()
                ctx.check(dep.resets == 1 and not rta.intervening and rta.control_actual is None and rta.control_desired is None, 'resetting resets the per-spacecraft filter')
            elif op:
                rta.enable = enabled = op == 'enable'
        if not (c and same):
            x = [ctx.real(f'x{c}_{i}', -3, 3) for i in range(6 * n + (1 if sun else 0))]
        d = [0.0] * (3 * n) if same and c == 1 else wants(ctx, f'd{c}_', 3 * n, io)
        out = vals(rta.filter_control(given(x, 'jax' if io == 'jax' else 'np'), 0.5, given(d, io)))
        exp, claim = [], []
        for i in range(n):
            y = permuted(x, i)
            exp += [clipv(clipv(d[3 * i + j] + dot(w, y[:6]) + others(y), -2.0, 2.0), -1.0, 1.0) for j in range(3)]
            claim.append(y[0] > 0.5)
        if not enabled:
            exp, claim = d, [False]
        ctx.close(out, exp, 'every spacecraft gets the filtered version of its own control')
        ctx.iff(bool(rta.intervening), Or(claim), 'an intervention is reported exactly when it occurs for some spacecraft')


@harness('C24', quick=[dict(n=2, use=['x_vel', 'deputy_collision_1']), dict(n=3, use=['deputy_collision_1', 'deputy_collision_2']), dict(n=2, use=['rel_vel', 'chief_collision'])],
         bounds='2-3 spacecraft with arbitrary states, subsets of the constraints')
def combined_programs(ctx, n, use):
    """CombinedInspectionRTA with the shipped per-spacecraft filter: one program per spacecraft, each that of a single filter with that
    spacecraft's state first."""
    mk = lambda: R.inspection_3d.InspectionRTA(num_deputies=n, constraints_to_use=use, solver_exception=True, deputy_radius=2.0)
    x = []
    for a in range(n):
        x += [ctx.real(f'x{6*a+i}', -60, 60) for i in range(3)] + [ctx.real(f'x{6*a+3+i}', -2, 2) for i in range(3)]
    x.append(ctx.real('xsun', -7, 7))
    for i in range(n):
        ctx.assume(norm2(x[6 * i:6 * i + 3]) >= 0.25)
        for j in range(i):
            ctx.assume(norm2(sub(x[6 * i:6 * i + 3], x[6 * j:6 * j + 3])) >= 0.25)
    d = [ctx.real(f'd{i}', -2, 2) for i in range(3 * n)]
    z = [ctx.real(f'z{i}', -2, 2) for i in range(3)]
    if not ctx.symbolic:
        for des in (d, z * n):
            a = qp.outcome(lambda: R.inspection_3d.CombinedInspectionRTA(num_deputies=n, deputy_rta=mk()), x, 1.0, des)
            bs = [qp.outcome(mk, permuted(x, i), 1.0, des[3 * i:3 * i + 3]) for i in range(n)]
            ctx.check((a is None) == any(b is None for b in bs), 'feasible together exactly when feasible one by one')
            if a is not None:
                ctx.close(a, [v for b in bs for v in b], 'the controls are those of single filters', tol=1e-4)
        return
    from vf import stubs
    got = []

    def q(call):
        got.append(call)
        k = min(len(got), len(want))
        return stubs.qp_result(call, want[k - 1], ())

    want = [d[3 * i:3 * i + 3] for i in range(n)]
    ctx.qp_handler = q
    rta = R.inspection_3d.CombinedInspectionRTA(num_deputies=n, deputy_rta=mk())
    rta.filter_control(nparr(x), 1.0, nparr(d))
    both = got
    ctx.check(len(both) == n, 'one program per spacecraft')
    for i in range(n):
        got, want = [], [d[3 * i:3 * i + 3]]
        mk().filter_control(nparr(permuted(x, i)), 1.0, nparr(d[3 * i:3 * i + 3]))
        A, B = both[i], got[0]
        ctx.close(A.objective(z), B.objective(z), 'the objective is that of a single filter')
        ra, rb = A.rows(z), B.rows(z)
        for v in ra:
            ctx.check(Implies(And([r >= 0 for r in rb]), v >= -qp.MARGIN), 'the program admits what a single filter admits', hint=qp.same(v, rb))
        for v in rb:
            ctx.check(Implies(And([r >= 0 for r in ra]), v >= -qp.MARGIN), 'the program admits only what a single filter admits', hint=qp.same(v, ra))


@harness('C24', quick=[dict(n=1), dict(n=2), dict(n=3)], bounds='1-3 spacecraft at a standstill with arbitrary small desired controls, the shipped filter built by default; the solver returns the desired control')
def combined_default(ctx, n):
    """CombinedInspectionRTA built without a per-spacecraft filter filters for its own number of spacecraft, and each such filter is its own."""
    mk = lambda: R.inspection_3d.CombinedInspectionRTA(num_deputies=n)
    rta, other = mk(), mk()
    x = []
    for i in range(n):
        x += [40.0 + 100.0 * i, 30.0 - 50.0 * i, 20.0, 0.0, 0.0, 0.0]
    x.append(1.0)
    d = [ctx.real(f'd{i}', -0.01, 0.01) for i in range(3 * n)]
    got = []

    def q(call):
        from vf import stubs
        got.append(call)
        i = (len(got) - 1) % n
        return stubs.qp_result(call, d[3 * i:3 * i + 3], ())

    ctx.qp_handler = q
    out = vals(rta.filter_control(nparr(x), 1.0, nparr(d)))
    ctx.close(out, d, 'safe controls pass through', tol=1e-4)
    if ctx.symbolic:
        ctx.check(len(got) == n, 'one program per spacecraft')
    ctx.check(other.control_actual is None and not other.intervening, 'another filter is untouched')


# ------------------------------------------------------------------------------------------------ delta-v limiter
def gains(m):
    """R^-1 B' P with the fixed P of deltav"""
    B = np.vstack([np.zeros((3, 3)), np.eye(3) / m, np.zeros((6, 3))])
    P = np.diag([3.0, 2, 4, 5, 3, 2, 1, 2, 1, 4, 2, 3]) * 2e3
    for i in range(3):
        for j in range(12):
            P[3 + i, j] = P[3 + i, j] or ((i + 2 * j) % 5 - 2) * 1e3
    K = (B.T @ P) / 1e5
    return [[float(v) for v in r[:6]] for r in K], [[float(v) for v in r[6:]] for r in K]


class DvRef:

    def __init__(self, K, m, n, limit, steps):
        (self.K1, self.K2), self.m, self.n, self.limit, self.steps = K, m, n, limit, steps
        self.reset()

    def reset(self):
        self.latched, self.ei = False, [0.0] * 6

    def step(self, x, u, dt):
        xd = zoo.cwh_xdot(x[:6], u, self.n, self.m, 3) + [-self.n, sum((absv(v) for v in u), 0.0) / self.m]
        return add(x, scale(dt, xd))

    def backup(self, x, dt, ei):
        e = [0.0, 0.0, 0.0, x[3] - self.n / 2 * x[1], x[4] + 2 * self.n * x[0], 0.0]
        u = [clipv(-dot(self.K1[i], e) - dot(self.K2[i], ei), -1.0, 1.0) for i in range(3)]
        return u, add(ei, scale(dt, e))

    def over(self, x, dt, d):
        """largest delta-v of the prediction beyond the limit"""
        p, ei, used = self.step(x, d, dt), self.ei, []
        for _ in range(self.steps):
            u, ei = self.backup(p, dt, ei)
            p = self.step(p, u, dt)
            used.append(p[7])
        return maxv(*used) - self.limit


@harness('C25', quick=[dict(steps=s, calls=c, ops=o, m=m, n=n, dt=dt, limit=lim) for s, c, o, m, n, dt, lim in (
    (1, 2, [], 12.0, zoo.N0, 1.0, 20.0), (2, 1, [], 5.0, 0.0625, 1.0, 5.0), (3, 1, [], 12.0, zoo.N0, 10.0, 20.0), (4, 2, [], 12.0, 0.03125, 1.0, 5.0),
    (1, 3, [[2, 'reset']], 12.0, 0.0625, 0.5, 5.0), (1, 3, [[1, 'disable'], [2, 'enable']], 12.0, 0.0625, 0.5, 5.0), (1, 3, [], 2.0, 0.0625, 1.0, 5.0), (2, 3, [[1, 'reset']], 5.0, 0.0625, 2.0, 10.0))] +
         [dict(steps=1, calls=2, ops=[], m=2.0, n=0.0625, dt=1.0, limit=5.0, io='int'), dict(steps=1, calls=1, ops=[], m=2.0, n=0.0625, dt=1.0, limit=5.0, io='jax'), dict(steps=1, calls=10, ops=[], m=2.0, n=0.0625, dt=1.0, limit=5.0, hold=True)],
         thorough=[dict(steps=3, calls=3, ops=[], m=5.0, n=0.0625, dt=1.0, limit=5.0), dict(steps=20, calls=1, ops=[], m=12.0, n=zoo.N0, dt=1.0, limit=20.0)],
         bounds='1-3 calls, look-ahead of 1-4 (thorough 20) backup steps; positions within 100 m, velocities within 2 m/s, delta-v within 10 of the limit, desired controls within the bounds; '
         'fixed feedback gains in place of the Riccati solution (which the installed library cannot compute)')
def delta_v(ctx, steps, calls, ops, m, n, dt, limit, io='np', hold=False):
    """SwitchingDeltaVLimitRTA: the desired control is passed on until the delta-v used after it and the following backup steps would exceed
    the limit; from then on, until reset, the backup control is returned and reported as an intervention."""
    kw = dict(m=m, n=n, delta_v_limit=limit, n_steps=steps)
    rta = deltav(**kw)
    ref = DvRef(gains(m), m, n, limit, steps)
    ops = dict(map(tuple, ops))
    on = True
    for c in range(calls):
        op = ops.get(c)
        if op == 'reset':
            rta.reset()
            ref.reset()
            ctx.check(not rta.intervening and rta.control_actual is None and rta.control_desired is None, 'reset clears the records')
        elif op:
            rta.enable = on = op == 'enable'
        c = 0 if hold and c < calls - 1 else c
        x = [ctx.real(f'x{c}_{i}', -100, 100) for i in range(3)] + [ctx.real(f'x{c}_{3+i}', -2, 2) for i in range(3)] + [ctx.real(f'x{c}_6', -7, 7), ctx.real(f'x{c}_7', max(0.0, limit - 10), limit + 1)]
        d = wants(ctx, f'd{c}_', 3, io, 1)
        out = vals(rta.filter_control(given(x, 'jax' if io == 'jax' else 'np'), dt, given(d, io)))
        obs = bool(rta.intervening)
        if not on:
            ctx.check(not obs, 'a disabled limiter does not intervene')
            ctx.close(out, d, 'a disabled limiter passes the control on')
            continue
        if ref.latched:
            ctx.check(obs, 'once engaged the backup stays engaged until reset')
        else:
            over = ref.over(x, dt, d)
            ctx.check(Implies(obs, over > -1e-6), 'the backup takes over only when the look-ahead exceeds the limit')
            ctx.check(Implies(Not(obs), over < 1e-6), 'the backup takes over whenever the look-ahead exceeds the limit')
        ref.latched = obs
        if obs:
            u, ref.ei = ref.backup(x, dt, ref.ei)
        else:
            u = d
        ctx.close(out, u, 'the backup control or the desired control is returned')
