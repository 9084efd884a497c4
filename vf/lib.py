"""Helpers shared by the harnesses; everything here works on symbolic values and on floats."""
from __future__ import annotations

import math
from collections import OrderedDict

import jax
import jax.numpy as jnp
import numpy as np

from vf.env import R


def _sym(*xs):
    from vf import sym
    return any(isinstance(x, (sym.E, sym.B)) for x in xs)


def And(*xs):
    xs = _flat(xs)
    if _sym(*xs):
        from vf import sym
        return sym.b_and(*xs)
    return all(bool(x) for x in xs)


def Or(*xs):
    xs = _flat(xs)
    if _sym(*xs):
        from vf import sym
        return sym.b_or(*xs)
    return any(bool(x) for x in xs)


def Not(x):
    if _sym(x):
        from vf import sym
        return sym.b_not(x)
    return not bool(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if _sym(a, b):
        from vf import sym
        return sym.b_iff(sym.b_lift(a), sym.b_lift(b))
    return bool(a) == bool(b)


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            out.extend(_flat(x))
        else:
            out.append(x)
    return out


def vals(x):
    """flat list of the elements of any (symbolic) array-like"""
    from vf import core
    if core.CTX is not None and core.CTX.symbolic:
        from vf import npsym
        return list(npsym._to_obj(x).reshape(-1))
    return [float(v) for v in np.asarray(x, dtype=float).reshape(-1)]


def val(x):
    v = vals(x)
    assert len(v) == 1, v
    return v[0]


def where(c, a, b):
    if _sym(c, a, b):
        from vf import sym
        return sym.ite(sym.b_lift(c), a, b)
    return a if c else b


def branch(c, fa, fb):
    """value of fa() where c holds, of fb() elsewhere; neither has to be defined where it is not used"""
    if _sym(c):
        from vf import sym
        c = sym.b_lift(c)
        if c.op == 'const':
            return fa() if c.args else fb()
        out = []
        for g, f in ((c, fa), (sym.b_not(c), fb)):
            sym.POOL.guards.append(g)
            try:
                out.append(f())
            finally:
                sym.POOL.guards.pop()
        return sym.ite(c, *out)
    return fa() if c else fb()


def absv(x):
    if _sym(x):
        from vf import sym
        return sym.eabs(x)
    return abs(x)


def sqrt(x):
    if _sym(x):
        from vf import sym
        return sym.sqrt(x)
    return math.sqrt(x)


def cos(x):
    if _sym(x):
        from vf import sym
        return sym.ecos(x)
    return math.cos(x)


def sin(x):
    if _sym(x):
        from vf import sym
        return sym.esin(x)
    return math.sin(x)


def acos(x):
    if _sym(x):
        from vf import sym
        return sym.einv('acos', x)
    return math.acos(max(-1.0, min(1.0, x)))


def maxv(*xs):
    r = xs[0]
    for x in xs[1:]:
        if _sym(r, x):
            from vf import sym
            r = sym.emax(r, x)
        else:
            r = max(r, x)
    return r


def minv(*xs):
    r = xs[0]
    for x in xs[1:]:
        if _sym(r, x):
            from vf import sym
            r = sym.emin(r, x)
        else:
            r = min(r, x)
    return r


def clipv(x, lo, hi):
    if lo is not None:
        x = maxv(x, lo)
    if hi is not None:
        x = minv(x, hi)
    return x


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), 0.0)


def matvec(M, v):
    return [dot(r, v) for r in M]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def scale(k, a):
    return [k * x for x in a]


def norm2(a):
    return sum((x * x for x in a), 0.0)


def norm(a):
    return sqrt(norm2(a))


def nparr(xs, shape=None):
    """numpy-like array of the elements"""
    from vf import core
    if core.CTX is not None and core.CTX.symbolic:
        from vf import npsym
        r = npsym.as_symnd(list(xs))
    else:
        r = np.array([float(x) for x in xs])
    return r if shape is None else r.reshape(shape)


def jarr(xs, shape=None):
    from vf import core
    if core.CTX is not None and core.CTX.symbolic:
        from vf import jaxsym
        r = jaxsym.tracer_of(nparr(xs, shape))
        return r
    r = jnp.array([float(x) for x in xs])
    return r if shape is None else r.reshape(shape)


def given(xs, how='np'):
    """an input vector as the caller holds it: float array, jax array, or (for whole numbers) integer array"""
    if how == 'jax':
        return jarr(xs)
    if how == 'int':
        return np.array([int(v) for v in xs])
    return nparr(xs)


WHOLE = ([3, -2, 0, 1, -4, 2], [0, 1, -1, -3, 2, 0], [-1, 4, 2, 0, 1, -2])


def wants(ctx, name, m, how='np', lim=3):
    """an arbitrary desired control (whole numbers out of a few vectors for integer arrays)"""
    if how == 'int':
        v = WHOLE[ctx.choice(name, len(WHOLE))]
        return [max(-lim, min(lim, v[i % len(v)])) for i in range(m)]
    return [ctx.real(f'{name}{i}', -lim, lim) for i in range(m)]


def mat(ctx, name, n, m, lo=-2, hi=2, conc=None):
    """n x m matrix of symbolic entries; conc: {(i,j): number} pins entries"""
    rows = []
    for i in range(n):
        row = []
        for j in range(m):
            if conc is not None and (i, j) in conc:
                row.append(float(conc[(i, j)]))
            else:
                row.append(ctx.real(f'{name}{i}{j}', lo, hi))
        rows.append(row)
    return rows


def jmat(rows):
    flat = [x for r in rows for x in r]
    return jarr(flat, (len(rows), len(rows[0])))


def conc(x):
    """is the run symbolic?"""
    from vf import core
    return not (core.CTX is not None and core.CTX.symbolic)
