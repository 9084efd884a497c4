"""base module behaviour: bounds, pass-through, records"""
from vf.env import R
from vf.lib import *
from vf.registry import harness


def bounds(ctx, kind, n):
    """control bounds in the documented forms; returns (low, high, low list, high list)"""
    los = [ctx.real(f'lo{i}', -5, 5) for i in range(n)]
    his = [ctx.real(f'hi{i}', -5, 5) for i in range(n)]
    for a, b in zip(los, his):
        ctx.assume(a <= b)
    if kind == 'none':
        return None, None, [None] * n, [None] * n
    if kind == 'scalar':
        return los[0], his[0], [los[0]] * n, [his[0]] * n
    if kind == 'low':
        return los[0], None, [los[0]] * n, [None] * n
    if kind == 'high':
        return None, his[0], [None] * n, [his[0]] * n
    if kind == 'list':
        return list(los), list(his), los, his
    if kind == 'array':
        return nparr(los), nparr(his), los, his
    if kind == 'highlist':
        return None, list(his), [None] * n, his
    if kind == 'lowlist':
        return list(los), None, los, [None] * n
    if kind == 'mixed':  # whole numbers and fractions in one list
        lo, hi = ([-1, -0.25, 1] * n)[:n], ([2, 0.5, 2.75] * n)[:n]
        return list(lo), list(hi), [float(v) for v in lo], [float(v) for v in hi]
    if kind == 'scalarlist':
        lo, hi = -3, ([-1, 0.5, 2] * n)[:n]
        return lo, list(hi), [-3.0] * n, [float(v) for v in hi]
    if kind == 'whole':
        return ([-2, 0, 1] * n)[:n], 3, [float(v) for v in ([-2, 0, 1] * n)[:n]], [3.0] * n
    raise ValueError(kind)


def Arbitrary(ctx, n, **kw):

    class Arb(R.base.RTAModule):
        """returns an arbitrary control"""

        def compute_filtered_control(self, input_state, step_size, control_desired):
            return nparr([ctx.real(f'raw{i}', -20, 20) for i in range(n)])

    return Arb(**kw)


@harness('C01', quick=[dict(kind=k, n=n) for k in ('none', 'scalar', 'low', 'high', 'list', 'array', 'highlist', 'lowlist', 'mixed', 'scalarlist', 'whole') for n in (2, )])
def base_bounds(ctx, kind, n):
    """RTAModule.filter_control: whatever the strategy computes, the returned control is that value limited to the bounds."""
    lo, hi, los, his = bounds(ctx, kind, n)
    rta = Arbitrary(ctx, n, control_bounds_low=lo, control_bounds_high=hi)
    des = ctx.vec('d', n, -20, 20)
    out = vals(rta.filter_control(ctx.vec('x', 2), 1.0, des))
    for i in range(n):
        raw = ctx.real(f'raw{i}', -20, 20)
        if los[i] is not None:
            ctx.check(out[i] >= los[i], 'returned control respects the lower bound')
        if his[i] is not None:
            ctx.check(out[i] <= his[i], 'returned control respects the upper bound')
        ctx.close(out[i], clipv(raw, los[i], his[i]), 'returned control is the computed control limited to the bounds')
