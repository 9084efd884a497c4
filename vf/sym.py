"""Symbolic real expressions used by the executor.

E  : a (Laurent) polynomial with rational coefficients over hash-consed atoms (variables, square roots,
     reciprocals, if-then-else values, uninterpreted functions).  Polynomials are kept in a normal form, so
     two implementations computing the same function mostly meet in the same term before the solver is asked.
B  : boolean terms over comparisons E >= 0, E > 0, E == 0.

Machine floats are treated as reals; float constants are rounded to 13 significant digits (see DESIGN.md).
"""
from __future__ import annotations

import math
from fractions import Fraction

F0, F1 = Fraction(0), Fraction(1)


class Unsupported(Exception):
    """The executor cannot encode this operation."""


# ------------------------------------------------------------------------------------------------ numbers
def snap(x) -> Fraction:
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, int)):
        return Fraction(int(x))
    x = float(x)
    if x == 0:
        return F0
    if not math.isfinite(x):
        raise Unsupported(f"non-finite constant {x}")
    if x == int(x) and abs(x) < 1e18:
        return Fraction(int(x))
    f = Fraction(format(x, '.12e'))
    return f


def _rnd(fr: Fraction) -> Fraction:
    """rounding used only for hash-consing keys (10 significant digits)"""
    if fr.denominator < 10**12 and abs(fr.numerator) < 10**12:
        return fr
    return Fraction(format(float(fr), '.10e')) if abs(fr) < 10**300 and (fr == 0 or abs(fr) > Fraction(1, 10**300)) else fr


# -------------------------------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'name', 'lo', 'hi', 'integer')

    def __repr__(self):
        return self.name


class Pool:
    """all atoms of one process; ids are never reused"""

    def __init__(self):
        self.atoms = []
        self.table = {}
        self.defined = []  # definedness side conditions (B) gathered while building terms
        self.defined_keys = set()
        self.guards = []  # conditions of the branch being executed
        self.domains = []  # those of the definedness conditions that delimit a region (roots of negative numbers)

    def atom(self, kind, key, args=(), name=None, lo=None, hi=None, integer=False):
        k = (kind, key)
        a = self.table.get(k)
        if a is None:
            a = Atom()
            a.id = len(self.atoms)
            a.kind, a.args, a.name, a.lo, a.hi = kind, args, name or f'{kind}{a.id}', lo, hi
            a.integer = integer
            self.atoms.append(a)
            self.table[k] = a
        return a

    def need(self, b, domain=False):
        """b must hold for the real code to produce finite numbers here (e.g. denominator != 0)"""
        if b is True or (isinstance(b, B) and b.op == 'const'):
            return
        for g in self.guards:
            b = b_or(b_not(g), b)
        if b.op == 'const':
            return
        if b.key not in self.defined_keys:
            self.defined_keys.add(b.key)
            self.defined.append(b)
            if domain:
                self.domains.append(b)


POOL = Pool()


_EKEYS = {}


def reset_pool():
    POOL.__init__()
    _BCACHE.clear()
    _EKEYS.clear()
    ZERO._key = ONE_E._key = None


# ---------------------------------------------------------------------------------------------- intervals
def i_add(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])


def _mul1(x, sx, y, sy):
    # x,y endpoints, None = inf with sign s
    if x is None:
        if y is None:
            return (None, sx * sy)
        if y == 0:
            return (F0, 0)
        return (None, sx * (1 if y > 0 else -1))
    if y is None:
        if x == 0:
            return (F0, 0)
        return (None, sy * (1 if x > 0 else -1))
    return (x * y, 0)


def i_mul(a, b):
    cands = [_mul1(a[i], (-1, 1)[i], b[j], (-1, 1)[j]) for i in (0, 1) for j in (0, 1)]
    lo = None if any(c[0] is None and c[1] < 0 for c in cands) else min((c[0] for c in cands if c[0] is not None), default=None)
    hi = None if any(c[0] is None and c[1] > 0 for c in cands) else max((c[0] for c in cands if c[0] is not None), default=None)
    return (lo, hi)


def _coarse(x, up):
    """keep interval endpoints short (outward rounding)"""
    if x is None:
        return None
    if x.denominator < 10**15 and abs(x.numerator) < 10**24:
        return x
    try:
        f = float(x)
    except OverflowError:
        return None
    if f == 0 or not math.isfinite(f):
        return (Fraction(1, 10**300) if up else Fraction(-1, 10**300)) if f == 0 else None
    f = math.nextafter(f, math.inf if up else -math.inf)
    f = math.nextafter(f, math.inf if up else -math.inf)
    return Fraction(f)


def i_pow(a, n):
    if n == 1:
        return a
    if n < 0:
        if (a[0] is not None and a[0] > 0) or (a[1] is not None and a[1] < 0):
            inv = (F0 if a[1] is None and a[0] is not None and a[0] > 0 else (None if a[1] is None else 1 / a[1]),
                   F0 if a[0] is None and a[1] is not None and a[1] < 0 else (None if a[0] is None else 1 / a[0]))
            if a[0] is not None and a[0] > 0:
                inv = (F0 if a[1] is None else 1 / a[1], 1 / a[0])
            else:
                inv = (1 / a[1], F0 if a[0] is None else 1 / a[0])
            return i_pow(inv, -n)
        if a[0] is not None and a[0] >= 0:
            return (F0, None)
        if n % 2 == 0:
            return (F0, None)
        return (None, None)
    if n % 2 == 1:
        return (None if a[0] is None else a[0]**n, None if a[1] is None else a[1]**n)
    if a[0] is not None and a[0] >= 0:
        return (a[0]**n, None if a[1] is None else a[1]**n)
    if a[1] is not None and a[1] <= 0:
        return (a[1]**n, None if a[0] is None else a[0]**n)
    if a[0] is None or a[1] is None:
        return (F0, None)
    return (F0, max(a[0]**n, a[1]**n))


def mono_interval(m):
    r = (F1, F1)
    for aid, e in m:
        a = POOL.atoms[aid]
        r = i_mul(r, i_pow((a.lo, a.hi), e))
        r = (_coarse(r[0], False), _coarse(r[1], True))
    return r


def poly_interval(t):
    r = (F0, F0)
    for m, c in t.items():
        iv = mono_interval(m) if m else (F1, F1)
        r = i_add(r, i_mul((c, c), iv))
    return (_coarse(r[0], False), _coarse(r[1], True))


# ------------------------------------------------------------------------------------------- polynomials
ONE = ()


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n:
            d[k] = n
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


def _needs_rw(m):
    for aid, e in m:
        k = POOL.atoms[aid].kind
        if k == 'sqrt' and (e > 1 or e < 0):
            return True
        if k == 'sin' and e > 1:
            return True
        if k == 'den' and (e > 0 or _den_lead_divides(POOL.atoms[aid], m)):
            return True
    return False


def _den_lead_divides(a, m):
    lead = a.args[1]
    d = dict(m)
    for k, e in lead:
        if d.get(k, 0) < e:
            return False
    return True


def _mono_key(m):
    return (sum(e for _, e in m), m)


def _rewrite(t):
    """normalise: sqrt(p)^2 -> p, sqrt(p)^-1 -> sqrt(p)/p, den(p)*p -> 1, sin^2 -> 1 - cos^2"""
    guard = 0
    while True:
        hit = None
        for m in t:
            if m and _needs_rw(m):
                hit = m
                break
        if hit is None:
            return t
        guard += 1
        if guard > 200000:
            raise Unsupported('normalisation does not terminate')
        c = t.pop(hit)
        d = dict(hit)
        rep = None
        for aid, e in hit:
            a = POOL.atoms[aid]
            if a.kind == 'sqrt' and e > 1:
                d[aid] = e % 2
                if not d[aid]:
                    del d[aid]
                rep = t_pow(a.args[0].t, e // 2)
                break
            if a.kind == 'sqrt' and e < 0:
                # s^-k = s^(k%2) * p^-((k+1)//2)
                k = -e
                if k % 2:
                    d[aid] = 1
                else:
                    del d[aid]
                rep = recip(a.args[0], (k + 1) // 2).t
                break
            if a.kind == 'sin' and e > 1:
                d[aid] = e - 2
                if not d[aid]:
                    del d[aid]
                cc = fn_atom('cos', a.args[0])
                rep = {ONE: F1, ((cc.id, 2), ): -F1}
                break
            if a.kind == 'den' and e > 0:
                del d[aid]
                rep = t_pow(a.args[0].t, e)
                break
            if a.kind == 'den' and e < 0 and _den_lead_divides(a, hit):
                lead = a.args[1]
                for k2, e2 in lead:
                    n = d[k2] - e2
                    if n:
                        d[k2] = n
                    else:
                        del d[k2]
                # now hit = d * lead ; lead = p - rest (p monic in lead);  lead*den^-1 = 1 - rest*den^-1
                n = d.get(aid, 0) + 1
                if n:
                    d[aid] = n
                else:
                    d.pop(aid, None)
                base = tuple(sorted(d.items()))
                rep = {ONE: F1}
                for m2, c2 in a.args[0].t.items():
                    if m2 != lead:
                        k3 = _mono_mul(m2, ((aid, -1), ))
                        rep[k3] = rep.get(k3, F0) - c2
                break
        base = tuple(sorted(d.items()))
        for m2, c2 in rep.items():
            k = _mono_mul(base, m2)
            v = t.get(k, F0) + c * c2
            if v:
                t[k] = v
            else:
                t.pop(k, None)


def t_mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    out = {}
    rw = False
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            v = out.get(m)
            if v is None:
                out[m] = c1 * c2
                if not rw and m and _needs_rw(m):
                    rw = True
            else:
                v = v + c1 * c2
                if v:
                    out[m] = v
                else:
                    del out[m]
    if len(out) > 60000:
        raise Unsupported('polynomial too large')
    return _rewrite(out) if rw else out


def t_pow(a, n):
    r = {ONE: F1}
    b = a
    while n:
        if n & 1:
            r = t_mul(r, b)
        n >>= 1
        if n:
            b = t_mul(b, b)
    return r


class E:
    """symbolic real"""
    __slots__ = ('t', '_iv', '_key')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t
        self._iv = None
        self._key = None

    # -- basic
    @property
    def const(self):
        if not self.t:
            return F0
        if len(self.t) == 1:
            c = self.t.get(ONE)
            if c is not None:
                return c
        return None

    @property
    def iv(self):
        if self._iv is None:
            self._iv = poly_interval(self.t)
        return self._iv

    @property
    def key(self):
        if self._key is None:
            k = tuple(sorted((m, _rnd(c)) for m, c in self.t.items()))
            self._key = _EKEYS.setdefault(k, len(_EKEYS))
        return self._key

    def __repr__(self):
        if not self.t:
            return '0'
        parts = []
        for m, c in sorted(self.t.items(), key=lambda kv: _mono_key(kv[0]))[:12]:
            s = '*'.join(POOL.atoms[a].name + (f'^{e}' if e != 1 else '') for a, e in m)
            parts.append(f'{float(c):g}' + ('*' + s if s else ''))
        return ' + '.join(parts) + (' + ...' if len(self.t) > 12 else '')

    def __format__(self, spec):
        return repr(self)

    # -- arithmetic
    def __add__(self, o):
        o = lift_or_ni(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o
        if len(o.t) > len(self.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        if not b:
            return E(a)
        out = dict(a)
        for m, c in b.items():
            v = out.get(m)
            if v is None:
                out[m] = c
            else:
                v = v + c
                if v:
                    out[m] = v
                else:
                    del out[m]
        return E(out)

    __radd__ = __add__

    def __neg__(self):
        return E({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift_or_ni(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return -o
        return self + (-o)

    def __rsub__(self, o):
        o = lift_or_ni(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o
        return o + (-self)

    def __mul__(self, o):
        o = lift_or_ni(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            raise Unsupported('symbolic * inf')
        c = o.const
        if c is not None:
            if c == 0:
                return ZERO
            if c == 1:
                return self
            return E({m: v * c for m, v in self.t.items()})
        c = self.const
        if c is not None:
            if c == 0:
                return ZERO
            if c == 1:
                return o
            return E({m: v * c for m, v in o.t.items()})
        return E(t_mul(self.t, o.t))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift_or_ni(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return ZERO
        c = o.const
        if c is not None:
            if c == 0:
                if self.const is not None:
                    s = self.const
                    return math.nan if s == 0 else math.copysign(math.inf, s)
                raise Unsupported('division of a symbolic value by zero')
            return self * (1 / c)
        return self * recip(o)

    def __rtruediv__(self, o):
        o = lift_or_ni(o)
        if o is NotImplemented:
            return o
        return o / self

    def __pow__(self, n):
        n = lift_or_ni(n)
        if n is NotImplemented:
            return n
        c = n.const
        if c is None:
            raise Unsupported('symbolic exponent')
        if c.denominator == 1:
            k = int(c)
            if k >= 0:
                return E(t_pow(self.t, k)) if k else ONE_E
            return recip(self, -k)
        if c.denominator == 2:
            k = c.numerator
            s = sqrt(self)
            return s**k if k > 0 else recip(s, -k)
        if self.const is not None:
            return E_const(float(self.const)**float(c))
        raise Unsupported(f'power {c}')

    def __rpow__(self, o):
        return lift(o)**self

    def __abs__(self):
        return eabs(self)

    def __mod__(self, o):
        raise Unsupported('symbolic modulo')

    def __floordiv__(self, o):
        raise Unsupported('symbolic floor division')

    # -- comparisons
    def __ge__(self, o):
        return cmp_op(self, o, 'ge')

    def __le__(self, o):
        return cmp_op(self, o, 'le')

    def __gt__(self, o):
        return cmp_op(self, o, 'gt')

    def __lt__(self, o):
        return cmp_op(self, o, 'lt')

    def __eq__(self, o):
        return cmp_op(self, o, 'eq')

    def __ne__(self, o):
        r = cmp_op(self, o, 'eq')
        return r if r is NotImplemented else b_not(r)

    def __hash__(self):
        # one bucket for every value: dictionary look-ups compare symbolically (and fork)
        return 0

    def __bool__(self):
        return bool(self != ZERO)

    def __float__(self):
        c = self.const
        if c is None:
            raise Unsupported('float() of a symbolic value outside the instrumented modules')
        return float(c)

    def __int__(self):
        return e_round(self, math.trunc)

    __trunc__ = __int__

    def __floor__(self):
        return e_round(self, math.floor)

    def __ceil__(self):
        return e_round(self, math.ceil)

    def __round__(self, n=None):
        if self.const is not None:
            return E_const(round(float(self.const), n)) if n is not None else round(self.const)
        if n is None:
            return e_round(self, round)
        lo, hi = self.iv
        if lo is None or hi is None or (hi - lo) * 10**n > 24:
            # any value within half a unit of the last place (covers the rounded one; a counterexample must reproduce)
            h = F1 / (2 * 10**n)
            return self + var(ROUNDED.setdefault((self.key, n), f'round{n}!{len(ROUNDED)}'), -h, h)
        return lift(e_round(self * 10**n, round)) / 10**n

    def __index__(self):
        c = self.const
        if c is None or c.denominator != 1:
            raise Unsupported('symbolic index')
        return int(c)

    # numpy object-array ufunc hooks
    def sqrt(self):
        return sqrt(self)

    def sin(self):
        return esin(self)

    def cos(self):
        return ecos(self)

    def conjugate(self):
        return self

    # scalar look-alikes
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def __jax_array__(self):
        from vf import jaxsym
        return jaxsym.tracer_of(self)


def E_const(x):
    f = snap(x)
    return E({ONE: f}) if f else ZERO


ZERO = E({})
ONE_E = E({ONE: F1})


def lift_or_ni(o):
    if isinstance(o, E):
        return o
    if isinstance(o, (bool, int, Fraction)):
        return E_const(o)
    if isinstance(o, float):
        if math.isinf(o) or math.isnan(o):
            return float(o)
        return E_const(o)
    if isinstance(o, B):
        return b_to_e(o)
    import numpy as np
    if isinstance(o, np.generic):
        return lift_or_ni(o.item())
    return NotImplemented


def lift(o):
    r = lift_or_ni(o)
    if r is NotImplemented:
        raise Unsupported(f'cannot lift {type(o)}')
    return r


ROUNDED = {}


def var(name, lo=None, hi=None, integer=False):
    lo = None if lo is None else snap(lo)
    hi = None if hi is None else snap(hi)
    a = POOL.atom('var', name, (), name, lo, hi, integer)
    return E({((a.id, 1), ): F1})


def _single(p):
    """(coef, mono) if p is a single monomial"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return c, m
    return None


def recip(p, n=1):
    """p ** -n"""
    c = p.const
    if c is not None:
        if c == 0:
            raise Unsupported('division by zero')
        return E_const(1 / c**n)
    s = _single(p)
    if s is not None:
        c, m = s
        POOL.need(b_not(cmp0(p, 'eq')))
        t = {tuple((a, -e * n) for a, e in m): 1 / c**n}
        return E(_rewrite(t))
    common = None
    for m in p.t:
        d = dict(m)
        common = d if common is None else {a: min(e, d[a], key=abs) for a, e in common.items() if a in d and (e > 0) == (d[a] > 0)}
        if not common:
            break
    if common:
        f = E({tuple(sorted(common.items())): F1})
        rest = {}
        for m, c in p.t.items():
            d = dict(m)
            for a, e in common.items():
                d[a] -= e
            rest[tuple(sorted((a, e) for a, e in d.items() if e))] = c
        return recip(f, n) * recip(E(_rewrite(rest)), n)
    POOL.need(b_not(cmp0(p, 'eq')))
    lead = max(p.t, key=_mono_key)
    lc = p.t[lead]
    monic = E({m: v / lc for m, v in p.t.items()})
    a = POOL.atom('den', monic.key, (monic, lead), None, *monic.iv)
    t = {((a.id, -n), ): 1 / lc**n}
    return E(_rewrite(t))


def _psd(p):
    """quadratic form without negative directions (numerically): no domain condition is assumed for its root"""
    vs = set()
    for m in p.t:
        if sum(e for _, e in m) != 2 or any(e < 0 for _, e in m):
            return False
        vs.update(a for a, _ in m)
    vs = sorted(vs)
    if not 2 <= len(vs) <= 24:
        return False
    import numpy as np
    ix = {a: i for i, a in enumerate(vs)}
    G = np.zeros((len(vs), len(vs)))
    for m, c in p.t.items():
        ids = [ix[a] for a, e in m for _ in range(e)]
        G[ids[0], ids[1]] += float(c) / 2
        G[ids[1], ids[0]] += float(c) / 2
    w = np.linalg.eigvalsh(G)
    return bool(w[0] >= -1e-9 * max(w[-1], 1e-300))


def sqrt(p):
    p = lift(p)
    if isinstance(p, float):
        return p
    c = p.const
    if c is not None:
        if c < 0:
            raise Unsupported('sqrt of a negative constant')
        num, den = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if num * num == c.numerator and den * den == c.denominator:
            return E_const(Fraction(num, den))
        return E_const(math.sqrt(c))
    s = _single(p)
    if s is not None:
        cc, m = s
        if cc > 0 and all(e % 2 == 0 for _, e in m):
            half = E({tuple((a, e // 2) for a, e in m): F1})
            return sqrt(E_const(cc)) * eabs(half)
    if not _psd(p):
        POOL.need(cmp0(p, 'ge'), domain=True)
    lo, hi = p.iv

    def fs(x, up):
        if x is None:
            return None if up else F0
        if x <= 0:
            return F0
        f = math.sqrt(x)
        return Fraction(math.nextafter(f, math.inf if up else 0.0))

    a = POOL.atom('sqrt', p.key, (p, ), None, fs(lo, False), fs(hi, True))
    return E({((a.id, 1), ): F1})


def fn_atom(name, *args, lo=None, hi=None):
    if name in ('sin', 'cos'):
        lo, hi = -F1, F1
    return POOL.atom(name, tuple(a.key for a in args), args, None, lo, hi)


def uf(name, *args, lo=None, hi=None):
    """uninterpreted function value (congruence by hash-consing + solver UF)"""
    args = tuple(lift(a) for a in args)
    a = POOL.atom('uf', (name, tuple(x.key for x in args)), (name, ) + args, None, lo, hi)
    return E({((a.id, 1), ): F1})


def _split_inv(p):
    """p = k*acos/atan atom + const?  returns (atom, coef, const) for angle-addition rewriting"""
    inv = [(m, c) for m, c in p.t.items() if m and len(m) == 1 and m[0][1] == 1 and POOL.atoms[m[0][0]].kind in ('acos', 'asin', 'atan')]
    if not inv:
        return None
    return inv


def esin(p):
    p = lift(p)
    c = p.const
    if c is not None:
        return E_const(math.sin(c))
    r = _angle_sum(p)
    if r is not None:
        return r[0]
    a = fn_atom('sin', p)
    fn_atom('cos', p)
    # odd symmetry: canonical sign
    q, s = _canon_sign(p)
    if s < 0:
        return -esin(q)
    return E({((a.id, 1), ): F1})


def ecos(p):
    p = lift(p)
    c = p.const
    if c is not None:
        return E_const(math.cos(c))
    r = _angle_sum(p)
    if r is not None:
        return r[1]
    q, s = _canon_sign(p)
    a = fn_atom('cos', q)
    return E({((a.id, 1), ): F1})


def _canon_sign(p):
    m = max(p.t, key=_mono_key)
    if p.t[m] < 0:
        return -p, -1
    return p, 1


def _angle_sum(p):
    """expand sin/cos of sums: constants and inverse-trig atoms are split off. returns (sin, cos) or None"""
    k = p.t.get(ONE)
    parts = []
    rest = dict(p.t)
    if k is not None and len(p.t) > 1:
        del rest[ONE]
        parts.append((E_const(math.sin(k)), E_const(math.cos(k))))
    for m, c in list(rest.items()):
        if len(m) == 1 and m[0][1] == 1 and c in (1, -1, 2, -2):
            a = POOL.atoms[m[0][0]]
            sc = None
            if a.kind == 'acos':
                x = a.args[0]
                sc = (sqrt(ONE_E - x * x), x)
            elif a.kind == 'asin':
                x = a.args[0]
                sc = (x, sqrt(ONE_E - x * x))
            elif a.kind == 'atan':
                x = a.args[0]
                r = recip(sqrt(ONE_E + x * x))
                sc = (x * r, r)
            if sc is not None:
                if len(rest) == 1 and not parts and False:
                    continue
                s_, c_ = sc
                if abs(c) == 2:
                    s_, c_ = 2 * s_ * c_, c_ * c_ - s_ * s_
                if c < 0:
                    s_ = -s_
                parts.append((s_, c_))
                del rest[m]
    if not parts:
        return None
    if rest:
        q = E(rest)
        parts.append((esin(q), ecos(q)))
    s, c = parts[0]
    for s2, c2 in parts[1:]:
        s, c = s * c2 + c * s2, c * c2 - s * s2
    return s, c


def einv(name, p):
    """acos / asin / atan"""
    p = lift(p)
    k = p.const
    if k is not None:
        return E_const(getattr(math, name)(k))
    pi = Fraction(math.pi)
    lo, hi = {'acos': (F0, pi), 'asin': (-pi / 2, pi / 2), 'atan': (-pi / 2, pi / 2)}[name]
    if name in ('acos', 'asin'):
        POOL.need(b_and(cmp0(p + ONE_E, 'ge'), cmp0(ONE_E - p, 'ge')))
    a = POOL.atom(name, p.key, (p, ), None, lo, hi)
    return E({((a.id, 1), ): F1})


def e_round(x, fn, limit=24):
    """fn (floor, ceil, trunc, round half to even) of a value as a Python int; forks over the possible results"""
    c = x.const
    if c is not None:
        return int(fn(c))
    lo, hi = x.iv
    if lo is None or hi is None or fn(hi) - fn(lo) > limit:
        raise Unsupported('rounding of a symbolic value')
    for k in range(int(fn(lo)), int(fn(hi))):
        if fn is math.floor:
            below = x < k + 1
        elif fn is math.ceil:
            below = x <= k
        elif fn is math.trunc:
            below = x < k + 1 if k >= 0 else x <= k
        else:
            below = x <= Fraction(2 * k + 1, 2) if k % 2 == 0 else x < Fraction(2 * k + 1, 2)
        if below:
            return k
    return int(fn(hi))


def generic_fn(name, p):
    p = lift(p)
    k = p.const
    if k is not None:
        return E_const(getattr(math, name)(k))
    lo = F0 if name in ('exp', 'cosh') else None
    hi = None
    if name == 'tanh':
        lo, hi = -F1, F1
    a = POOL.atom('uf', (name, (p.key, )), (name, p), None, lo, hi)
    return E({((a.id, 1), ): F1})


def eabs(p):
    p = lift(p)
    if isinstance(p, float):
        return abs(p)
    lo, hi = p.iv
    if lo is not None and lo >= 0:
        return p
    if hi is not None and hi <= 0:
        return -p
    return ite(cmp0(p, 'ge'), p, -p)


def emax(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, float) or isinstance(b, float):
        return _ext(a, b, True)
    if a.const is not None:
        a, b = b, a
    if b.const is not None:  # max(min(x, hi), lo) with lo <= hi is written min(max(x, lo), hi)
        m = _as_minmax(a)
        if m is not None and m[0] == 'min' and m[2].const is not None and m[2].const >= b.const and a.const is None:
            return emin(emax(m[1], b), m[2])
    return ite(cmp0(a - b, 'ge'), a, b)


def emin(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, float) or isinstance(b, float):
        return _ext(a, b, False)
    return ite(cmp0(b - a, 'ge'), a, b)


def _as_minmax(p):
    """('min'|'max', x, y) when p is such a term (y the constant argument, if any)"""
    if len(p.t) != 1:
        return None
    (m, k), = p.t.items()
    if k != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    at = POOL.atoms[m[0][0]]
    if at.kind != 'ite':
        return None
    c, a, b = at.args
    if c.op != 'ge':
        return None
    if cmp0(a - b, 'ge').key == c.key:
        kind = 'max'
    elif cmp0(b - a, 'ge').key == c.key:
        kind = 'min'
    else:
        return None
    return (kind, b, a) if a.const is not None else (kind, a, b)


def _ext(a, b, is_max):
    if isinstance(a, float) and isinstance(b, float):
        return max(a, b) if is_max else min(a, b)
    inf, other = (a, b) if isinstance(a, float) else (b, a)
    if math.isnan(inf):
        return inf
    if is_max:
        return inf if inf > 0 else other
    return other if inf > 0 else inf


def _swap(a, b):
    if (a.const is None) != (b.const is None):
        return a.const is not None
    return a.key > b.key


def ite(c, a, b):
    if isinstance(c, (bool, int)):
        return a if c else b
    if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            return b_or(b_and(c, a), b_and(b_not(c), b))
    if c.op == 'const':
        return a if c.args else b
    a, b = lift(a), lift(b)
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float) and (a == b or (a != a and b != b)):
            return a
        # pick a side by forking the path
        return a if bool(c) else b
    if a.key == b.key:
        return a
    if c.op == 'not':
        c, a, b = c.args, b, a
    if c.op == 'ge' and _swap(a, b):  # max and min are symmetric: fix the order of the arguments
        if cmp0(a - b, 'ge').key == c.key:
            c = cmp0(b - a, 'ge')
            a, b = b, a
        elif cmp0(b - a, 'ge').key == c.key:
            c = cmp0(a - b, 'ge')
            a, b = b, a
    lo = None if a.iv[0] is None or b.iv[0] is None else min(a.iv[0], b.iv[0])
    hi = None if a.iv[1] is None or b.iv[1] is None else max(a.iv[1], b.iv[1])
    # clip-like tightening: max(p,q) >= both, min <= both
    if c.op == 'ge':
        d = (a - b)
        if d.key == c.args.key:  # max(a,b)
            if a.iv[0] is not None and (b.iv[0] is None or a.iv[0] > b.iv[0]):
                lo = a.iv[0]
            elif b.iv[0] is not None:
                lo = b.iv[0] if a.iv[0] is None or b.iv[0] > a.iv[0] else a.iv[0]
        elif (-d).key == c.args.key:  # min(a,b)
            if a.iv[1] is not None and (b.iv[1] is None or a.iv[1] < b.iv[1]):
                hi = a.iv[1]
            elif b.iv[1] is not None:
                hi = b.iv[1] if a.iv[1] is None or b.iv[1] < a.iv[1] else a.iv[1]
    at = POOL.atom('ite', (c.key, a.key, b.key), (c, a, b), None, lo, hi)
    return E({((at.id, 1), ): F1})


def clip(x, lo, hi):
    if lo is not None:
        x = emax(x, lo)
    if hi is not None:
        x = emin(x, hi)
    return x


# ------------------------------------------------------------------------------------------------ booleans
_BCACHE = {}


class B:
    """symbolic boolean"""
    __slots__ = ('op', 'args', 'key')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __bool__(self):
        if self.op == 'const':
            return self.args
        from vf import core
        return core.CTX.decide(self)

    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        o = b_lift(o)
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))

    __rxor__ = __xor__

    def __invert__(self):
        return b_not(self)

    def __repr__(self):
        return f'{self.op}({self.args!r})'

    def __eq__(self, o):
        if isinstance(o, (B, bool)):
            return b_iff(self, o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __hash__(self):
        return 0

    # arithmetic on booleans: 0/1
    def __add__(self, o):
        return b_to_e(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return b_to_e(self) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return b_to_e(self) - o

    def __rsub__(self, o):
        return o - b_to_e(self)

    def __lt__(self, o):
        return b_to_e(self) < o

    def __gt__(self, o):
        return b_to_e(self) > o

    def __le__(self, o):
        return b_to_e(self) <= o

    def __ge__(self, o):
        return b_to_e(self) >= o

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def __int__(self):
        return int(bool(self))

    __index__ = __int__
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def any(self):
        return self

    def all(self):
        return self

    def __jax_array__(self):
        from vf import jaxsym
        return jaxsym.tracer_of(self)


def _mk(op, args, key):
    k = (op, key)
    b = _BCACHE.get(k)
    if b is None:
        b = B()
        b.op, b.args, b.key = op, args, len(_BCACHE)
        _BCACHE[k] = b
    return b


def b_const(v):
    return _mk('const', bool(v), bool(v))


def b_lift(x):
    if isinstance(x, B):
        return x
    if isinstance(x, E):
        return b_not(cmp0(x, 'eq'))
    import numpy as np
    if isinstance(x, (bool, int, float, np.bool_, np.number)):
        return b_const(bool(x))
    raise Unsupported(f'not a boolean: {type(x)}')


def b_var(name):
    return _mk('var', name, name)


def cmp0(p, op):
    """p op 0"""
    c = p.const
    if c is not None:
        return b_const({'ge': c >= 0, 'gt': c > 0, 'eq': c == 0}[op])
    lo, hi = p.iv
    if op == 'ge' and (lo is not None and lo >= 0):
        return b_const(True)
    if op == 'ge' and (hi is not None and hi < 0):
        return b_const(False)
    if op == 'gt' and (lo is not None and lo > 0):
        return b_const(True)
    if op == 'gt' and (hi is not None and hi <= 0):
        return b_const(False)
    if op == 'eq' and ((lo is not None and lo > 0) or (hi is not None and hi < 0)):
        return b_const(False)
    r = _cmp_ite(p, op)
    if r is not None:
        return r
    # scale to leading coefficient +-1 (positive scaling only; eq: any)
    lead = max(p.t, key=_mono_key)
    lc = abs(p.t[lead])
    if op == 'eq':
        lc = p.t[lead]
    q = E({m: v / lc for m, v in p.t.items()}) if lc != 1 else p
    if op == 'gt':
        return b_not(_mk('ge', -q, (-q).key))
    return _mk(op, q, q.key)


def _cmp_ite(p, op):
    """k*ite(c, const, const) + const  op  0  is a boolean combination of c"""
    non = [m for m in p.t if m]
    if len(non) != 1 or len(non[0]) != 1 or non[0][0][1] != 1:
        return None
    at = POOL.atoms[non[0][0][0]]
    if at.kind != 'ite':
        return None
    c, a, b = at.args
    if a.const is None or b.const is None:
        return None
    k, c0 = p.t[non[0]], p.t.get((), F0)
    x, y = cmp0(E_const(k * a.const + c0), op), cmp0(E_const(k * b.const + c0), op)
    return b_or(b_and(c, x), b_and(b_not(c), y))


def cmp_op(a, b, op):
    b = lift_or_ni(b)
    if b is NotImplemented:
        return b
    a = lift(a)
    if isinstance(b, float) or isinstance(a, float):
        x = 0.0 if isinstance(a, E) else a
        y = 0.0 if isinstance(b, E) else b
        return b_const({'ge': x >= y, 'le': x <= y, 'gt': x > y, 'lt': x < y, 'eq': x == y}[op])
    if op == 'ge':
        return cmp0(a - b, 'ge')
    if op == 'le':
        return cmp0(b - a, 'ge')
    if op == 'gt':
        return cmp0(a - b, 'gt')
    if op == 'lt':
        return cmp0(b - a, 'gt')
    return cmp0(a - b, 'eq')


def b_not(b):
    b = b_lift(b)
    if b.op == 'const':
        return b_const(not b.args)
    if b.op == 'not':
        return b.args
    return _mk('not', b, b.key)


def _nary(op, xs, unit):
    out, seen = [], set()
    for x in xs:
        x = b_lift(x)
        if x.op == 'const':
            if x.args != unit:
                return b_const(not unit)
            continue
        for y in (x.args if x.op == op else (x, )):
            if y.key not in seen:
                seen.add(y.key)
                out.append(y)
    for y in out:
        if y.op == 'not' and y.args.key in seen:
            return b_const(not unit)
    if not out:
        return b_const(unit)
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda y: y.key)
    return _mk(op, tuple(out), tuple(y.key for y in out))


def b_and(*xs):
    return _nary('and', xs, True)


def b_or(*xs):
    return _nary('or', xs, False)


def b_iff(a, b):
    a, b = b_lift(a), b_lift(b)
    if a.key == b.key:
        return b_const(True)
    if a.op == 'const':
        return b if a.args else b_not(b)
    if b.op == 'const':
        return a if b.args else b_not(a)
    return b_and(b_or(b_not(a), b), b_or(a, b_not(b)))


def b_implies(a, b):
    return b_or(b_not(a), b)


def b_to_e(b):
    b = b_lift(b)
    if b.op == 'const':
        return ONE_E if b.args else ZERO
    return ite(b, ONE_E, ZERO)
