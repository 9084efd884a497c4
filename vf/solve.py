"""From terms to z3 and back: validity queries in stages (linear abstraction, case splits, exact nonlinear, slices)."""
from __future__ import annotations

import math
import random
import time
from fractions import Fraction

import z3

from vf import sym
from vf.sym import B, E, POOL, ONE

STATS = {'queries': 0, 'linear': 0, 'split': 0, 'nonlinear': 0, 'slices': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'solver_s': 0.0}


def q(fr):
    return z3.RealVal(f'{fr.numerator}/{fr.denominator}' if fr.denominator != 1 else str(fr.numerator))


class Enc:
    """one encoding of a set of assertions. linear=True: nonlinear monomials become bounded fresh reals."""

    def __init__(self, linear, solver, known=()):
        self.linear = linear
        self.s = solver
        self.av = {}
        self.mv = {}
        self.bc = {}
        self.ufs = {}
        self.extra = []
        self.known = set(known)

    def holds(self, b):
        return b.op == 'const' and b.args or b.key in self.known

    def nonzero(self, aid):
        a = POOL.atoms[aid]
        if a.lo is not None and a.lo > 0 or a.hi is not None and a.hi < 0:
            return True
        if self.holds(sym.b_not(sym.cmp0(E({((aid, 1), ): sym.F1}), 'eq'))):
            return True
        return a.kind in ('den', 'sqrt') and self.holds(sym.b_not(sym.cmp0(a.args[0], 'eq')))

    def atom(self, aid):
        v = self.av.get(aid)
        if v is not None:
            return v
        a = POOL.atoms[aid]
        v = z3.Real(f'a{aid}_{a.name}')
        self.av[aid] = v
        if a.lo is not None:
            self.s.add(v >= q(a.lo))
        if a.hi is not None:
            self.s.add(v <= q(a.hi))
        if a.kind == 'sqrt':
            p = self.e(a.args[0])
            self.s.add(v >= 0)
            dom = sym.cmp0(a.args[0], 'ge')
            if self.holds(dom):
                self.s.add(self.power(aid, 2, v) == p)
            else:  # e.g. in a branch that is not taken: any value outside the domain
                self.s.add(z3.Or(z3.Not(self.b(dom)), self.power(aid, 2, v) == p))
        elif a.kind == 'den':
            self.s.add(v == self.e(a.args[0]))
        elif a.kind == 'ite':
            c, x, y = a.args
            zc = self.b(c)
            self.s.add(z3.If(zc, v == self.e(x), v == self.e(y)))
        elif a.kind in ('sin', 'cos'):
            p = a.args[0]
            sn, cs = sym.fn_atom('sin', p), sym.fn_atom('cos', p)
            # register both before relating them
            self.atom(sn.id)
            self.atom(cs.id)
            if ('trig', p.key) not in self.ufs:
                self.ufs[('trig', p.key)] = True
                self.s.add(self.power(sn.id, 2, self.av[sn.id]) + self.power(cs.id, 2, self.av[cs.id]) == 1)
        elif a.kind == 'uf':
            name, *args = a.args
            f = self.ufs.get((name, len(args)))
            if f is None:
                f = z3.Function('uf_' + name, *([z3.RealSort()] * (len(args) + 1)))
                self.ufs[(name, len(args))] = f
            self.s.add(v == f(*[self.e(x) for x in args]))
        return v

    def power(self, aid, e, v=None):
        v = self.atom(aid) if v is None else v
        if e == 1:
            return v
        if self.linear:
            return self.mono(((aid, e), ))
        if e > 1:
            r = v
            for _ in range(e - 1):
                r = r * v
            return r
        i = self.mv.get(('inv', aid))
        if i is None:
            i = z3.Real(f'inv{aid}')
            self.mv[('inv', aid)] = i
            self.s.add(i * v == 1 if self.nonzero(aid) else z3.Or(v == 0, i * v == 1))
        r = i
        for _ in range(-e - 1):
            r = r * i
        return r

    def mono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.atom(m[0][0])
        if not self.linear:
            r = None
            for aid, e in m:
                p = self.power(aid, e)
                r = p if r is None else r * p
            return r
        v = self.mv.get(m)
        if v is None:
            v = z3.Real('m_' + '_'.join(f'{a}e{e}' for a, e in m).replace('-', 'n'))
            self.mv[m] = v
            for aid, e in m:
                self.atom(aid)
            lo, hi = sym.mono_interval(m)
            if lo is not None:
                self.s.add(v >= q(lo))
            if hi is not None:
                self.s.add(v <= q(hi))
            # secant/tangent facts for squares of bounded atoms
            if len(m) == 1 and m[0][1] == 2:
                a = POOL.atoms[m[0][0]]
                x = self.atom(a.id)
                if a.lo is not None and a.hi is not None:
                    self.s.add(v <= q(a.lo + a.hi) * x - q(a.lo * a.hi))
                    for t in (a.lo, a.hi, (a.lo + a.hi) / 2):
                        self.s.add(v >= 2 * q(t) * x - q(t * t))
            elif len(m) == 2 and m[0][1] == 1 and m[1][1] == 1:
                a, b = POOL.atoms[m[0][0]], POOL.atoms[m[1][0]]
                if None not in (a.lo, a.hi, b.lo, b.hi):  # McCormick
                    x, y = self.atom(a.id), self.atom(b.id)
                    self.s.add(v >= q(a.lo) * y + q(b.lo) * x - q(a.lo * b.lo))
                    self.s.add(v >= q(a.hi) * y + q(b.hi) * x - q(a.hi * b.hi))
                    self.s.add(v <= q(a.hi) * y + q(b.lo) * x - q(a.hi * b.lo))
                    self.s.add(v <= q(a.lo) * y + q(b.hi) * x - q(a.lo * b.hi))
            # x * ite(c, const, const): resolve exactly
            for aid, e in m:
                a = POOL.atoms[aid]
                if a.kind == 'ite' and e == 1 and a.args[1].const is not None and a.args[2].const is not None:
                    rest = tuple((k, n) for k, n in m if k != aid)
                    r = self.mono(rest) if rest else z3.RealVal(1)
                    self.s.add(z3.If(self.b(a.args[0]), v == q(a.args[1].const) * r, v == q(a.args[2].const) * r))
        return v

    def e(self, p):
        terms = []
        for m, c in p.t.items():
            if m == ONE:
                terms.append(q(c))
            else:
                t = self.mono(m)
                terms.append(t if c == 1 else q(c) * t)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def b(self, x):
        r = self.bc.get(x.key)
        if r is None:
            if x.op == 'const':
                r = z3.BoolVal(x.args)
            elif x.op == 'ge':
                r = self.e(x.args) >= 0
            elif x.op == 'eq':
                r = self.e(x.args) == 0
            elif x.op == 'not':
                r = z3.Not(self.b(x.args))
            elif x.op == 'and':
                r = z3.And(*[self.b(y) for y in x.args])
            elif x.op == 'or':
                r = z3.Or(*[self.b(y) for y in x.args])
            elif x.op == 'var':
                r = z3.Bool(x.args)
            else:
                raise AssertionError(x.op)
            self.bc[x.key] = r
        return r


def _value(v):
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


class Model:

    def __init__(self, reals, bools):
        self.reals = reals  # name -> Fraction
        self.bools = bools

    def get(self, name, lo=None, hi=None):
        return self.reals.get(name)


def _extract(enc, m):
    reals, bools = {}, {}
    for aid, v in enc.av.items():
        a = POOL.atoms[aid]
        if a.kind == 'var':
            try:
                val = _value(m.eval(v, model_completion=True))
            except Exception:  # noqa: BLE001
                continue
            reals[a.name] = val
    for d in m.decls():
        if d.arity() == 0 and d.range() == z3.BoolSort():
            bools[d.name()] = z3.is_true(m[d])
    return Model(reals, bools)


def _solver(linear, timeout_ms, seed=1):
    if linear:
        s = z3.SolverFor('QF_UFLRA')
    else:
        s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    return s


def check_sat(asserts, linear, timeout_ms):
    """('sat', Model) | ('unsat', None) | ('unknown', None)"""
    for b in asserts:
        if b.op == 'const' and not b.args:
            return 'unsat', None
    t0 = time.time()
    s = _solver(linear, timeout_ms)
    enc = Enc(linear, s, [b.key for b in flatten(asserts)])
    for b in asserts:
        s.add(enc.b(b))
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS['solver_s'] += time.time() - t0
    STATS['queries'] += 1
    STATS['linear' if linear else 'nonlinear'] += 1
    if r == z3.unsat:
        STATS['unsat'] += 1
        return 'unsat', None
    if r == z3.sat:
        STATS['sat'] += 1
        return 'sat', _extract(enc, s.model())
    STATS['unknown'] += 1
    return 'unknown', None


# ------------------------------------------------------------------------------------------- term rewriting
def rebuild(bs, atom_fn=None, cond=None, post=None):
    """rewrite terms: atom_fn(atom) -> E or None to substitute a variable; cond: {Bkey: bool} fixes conditions;
    post(E of the rewritten atom) -> E or None is applied to every other atom, innermost first"""
    ec, bcache = {}, {}

    def do_atom(a):
        if a.id in ec:
            return ec[a.id]
        r = None
        if a.kind == 'var':
            r = atom_fn(a) if atom_fn else None
        elif a.kind == 'ite':
            c = do_b(a.args[0])
            if c.op == 'const':
                r = do_e(a.args[1] if c.args else a.args[2])
            else:
                x, y = do_e(a.args[1]), do_e(a.args[2])
                if c is not a.args[0] or x is not a.args[1] or y is not a.args[2]:
                    r = sym.ite(c, x, y)
        elif a.kind == 'sqrt':
            x = do_e(a.args[0])
            if x is not a.args[0]:
                r = sym.sqrt(x)
        elif a.kind == 'den':
            x = do_e(a.args[0])
            if x is not a.args[0]:
                r = x
        elif a.kind in ('sin', 'cos'):
            x = do_e(a.args[0])
            if x is not a.args[0]:
                r = sym.esin(x) if a.kind == 'sin' else sym.ecos(x)
        elif a.kind in ('acos', 'asin', 'atan'):
            x = do_e(a.args[0])
            if x is not a.args[0]:
                r = sym.einv(a.kind, x)
        elif a.kind == 'uf':
            name, *args = a.args
            xs = [do_e(x) for x in args]
            if any(x is not y for x, y in zip(xs, args)):
                r = sym.uf(name, *xs)
        if post is not None and a.kind in ('sqrt', 'ite'):
            n = post(r if r is not None else E({((a.id, 1), ): sym.F1}))
            if n is not None:
                r = n
        ec[a.id] = r
        return r

    ecache = {}

    def do_e(p):
        k = id(p)
        if k in ecache:
            return ecache[k][0]
        changed = False
        subs = {}
        for m in p.t:
            for aid, _ in m:
                if aid not in subs:
                    subs[aid] = do_atom(POOL.atoms[aid])
                    if subs[aid] is not None:
                        changed = True
        if not changed:
            ecache[k] = (p, p)
            return p
        out = sym.ZERO
        for m, c in p.t.items():
            keep, t = [], sym.E_const(c)
            for aid, e in m:
                s = subs[aid]
                if s is None:
                    keep.append((aid, e))
                else:
                    t = t * (s**e if e > 0 else sym.recip(s, -e))
            if keep:
                t = t * E({tuple(keep): sym.F1})
            out = out + t
        ecache[k] = (out, p)
        return out

    def do_b(b):
        if cond is not None and b.key in cond:
            return sym.b_const(cond[b.key])
        r = bcache.get(b.key)
        if r is None:
            if b.op in ('const', 'var'):
                r = b
            elif b.op in ('ge', 'eq'):
                p = do_e(b.args)
                r = b if p is b.args else sym.cmp0(p, b.op)
            elif b.op == 'not':
                r = sym.b_not(do_b(b.args))
            elif b.op == 'and':
                r = sym.b_and(*[do_b(x) for x in b.args])
            else:
                r = sym.b_or(*[do_b(x) for x in b.args])
            bcache[b.key] = r
        return r

    return [do_b(b) for b in bs]


def collect(bs):
    """(variables, ite conditions inner-first, whether some ite sits inside a nonlinear monomial)"""
    vars_, conds, seen, seenb = {}, [], set(), set()
    nl_ites = set()

    def do_e(p):
        for m in p.t:
            for aid, e in m:
                a = POOL.atoms[aid]
                if a.kind == 'ite' and (len(m) > 1 or e != 1):
                    nl_ites.add(aid)
                do_atom(a)

    def do_atom(a):
        if a.id in seen:
            return
        seen.add(a.id)
        if a.kind == 'var':
            vars_[a.name] = a
        elif a.kind == 'ite':
            do_b(a.args[0])
            do_e(a.args[1])
            do_e(a.args[2])
            conds.append((a.args[0], a.id))
        elif a.kind == 'uf':
            for x in a.args[1:]:
                do_e(x)
        elif a.kind == 'den':
            do_e(a.args[0])
        else:
            for x in a.args:
                do_e(x)

    def do_b(b):
        if b.key in seenb:
            return
        seenb.add(b.key)
        if b.op in ('ge', 'eq'):
            do_e(b.args)
        elif b.op == 'not':
            do_b(b.args)
        elif b.op in ('and', 'or'):
            for x in b.args:
                do_b(x)

    for b in bs:
        do_b(b)
    return vars_, conds, nl_ites


def is_linear(bs):
    """no nonlinear monomial, no sqrt/den/trig/uf atoms: the linear encoding is exact"""
    ok = True
    seen = set()

    def do_e(p):
        nonlocal ok
        for m in p.t:
            if len(m) > 1 or (m and m[0][1] != 1):
                ok = False
                return
            for aid, _ in m:
                if aid in seen:
                    continue
                seen.add(aid)
                a = POOL.atoms[aid]
                if a.kind == 'ite':
                    do_b(a.args[0])
                    do_e(a.args[1])
                    do_e(a.args[2])
                elif a.kind != 'var':
                    ok = False

    def do_b(b):
        if not ok:
            return
        if b.op in ('ge', 'eq'):
            do_e(b.args)
        elif b.op == 'not':
            do_b(b.args)
        elif b.op in ('and', 'or'):
            for x in b.args:
                do_b(x)

    for b in bs:
        do_b(b)
    return ok


def flatten(bs):
    out = []
    for b in bs:
        if b.op == 'and':
            out.extend(b.args)
        else:
            out.append(b)
    return out


def _single_atom(e):
    if len(e.t) != 1:
        return None
    (m, c), = e.t.items()
    return POOL.atoms[m[0][0]] if c == 1 and len(m) == 1 and m[0][1] == 1 else None


def _mag(p):
    lo, hi = p.iv
    return None if lo is None or hi is None else max(abs(lo), abs(hi))


def _squares(p):
    """p as a sum of d_i * l_i^2 (exactly; completing squares in variable order), as rows sqrt(d_i) * l_i; None if it is no such sum"""
    P = {}
    for m, c in p.t.items():
        if sum(e for _, e in m) != 2 or any(e < 0 for _, e in m):
            return None
        ids = [a for a, e in m for _ in range(e)]
        if ids[0] == ids[1]:
            P.setdefault(ids[0], {})[ids[0]] = c
        else:
            P.setdefault(ids[0], {})[ids[1]] = c / 2
            P.setdefault(ids[1], {})[ids[0]] = c / 2
    rows = []
    for v in sorted(P):
        row = P.get(v)
        if not row:
            continue
        d = row.get(v, 0)
        if d <= 0:
            return None
        ell = {w: c / d for w, c in row.items()}
        r = math.sqrt(d)
        rows.append({w: r * float(c) for w, c in ell.items()})
        for a, x in ell.items():
            if a == v:
                continue
            for b, y in ell.items():
                z = P[a].get(b, 0) - d * x * y
                if z == 0:
                    P[a].pop(b, None)
                else:
                    P[a][b] = z
        P.pop(v)
    return rows if all(not r for r in P.values()) else None


def _norm_dist(p, q):
    """bound on |sqrt p - sqrt q| for two sums of squares of nearly equal linear forms"""
    a, b = _squares(p), _squares(q)
    if a is None or b is None or len(a) != len(b):
        return None
    tot = 0.0
    for x, y in zip(a, b):
        for w in set(x) | set(y):
            at = POOL.atoms[w]
            if at.lo is None or at.hi is None:
                return None
            u, v = x.get(w, 0.0), y.get(w, 0.0)
            tot += (abs(u - v) + 1e-14 * (abs(u) + abs(v))) * float(max(abs(at.lo), abs(at.hi)))
    return Fraction(tot)


def unify(bs, small=Fraction(1, 10**6), rel=Fraction(1, 10**11)):
    """weaken the assertions: roots, minima and maxima of nearly equal arguments (rounding of constants) become one term plus a
    bounded error. None when nothing changes; only 'unsat' carries over to the original assertions."""
    reps = {'sqrt': [], 'max': [], 'min': []}
    hits = 0

    def near(x, y):
        if set(x.t) != set(y.t) and len(set(x.t) ^ set(y.t)) > 60:
            return None
        return _mag(x - y)

    def post(e):
        nonlocal hits
        a = _single_atom(e)
        if a is None:
            return None
        if a.kind == 'sqrt':
            kind, args = 'sqrt', (a.args[0], )
        else:
            c, x, y = a.args
            if c.op != 'ge':
                return None
            if sym.cmp0(x - y, 'ge').key == c.key:
                kind = 'max'
            elif sym.cmp0(y - x, 'ge').key == c.key:
                kind = 'min'
            else:
                return None
            args = (x, y)
        for b, bargs in reps[kind]:
            if b.id == a.id:
                return None
            best = None
            for perm in ((args, bargs), (args, bargs[::-1])) if len(args) == 2 else ((args, bargs), ):
                ds = [near(x, y) for x, y in zip(*perm)]
                if all(d is not None and (d <= small or d <= rel * (_mag(x) or 0)) for d, x in zip(ds, args)):
                    best = max(ds)
                    break
            if best is None:
                continue
            if kind == 'sqrt':
                lo = Fraction(0)
                for z in (a, b):
                    if z.lo is not None and z.lo > 0:
                        lo += z.lo
                root = Fraction(math.sqrt(best)) * Fraction(1001, 1000)  # |sqrt a - sqrt b| <= sqrt|a - b|
                best = min(best / lo, root) if lo > 0 else root
                if best > Fraction(1, 10**9):
                    alt = _norm_dist(a.args[0], b.args[0])
                    if alt is not None:
                        best = min(best, alt)
            if best == 0:
                best = Fraction(1, 10**18)
            hits += 1
            bound = Fraction(float(best)) * Fraction(1001, 1000)
            return E({((b.id, 1), ): sym.F1}) + sym.var(f'err!{a.id}', -bound, bound)
        reps[kind].append((a, args))
        return None

    out = rebuild(bs, post=post)
    return out if hits else None


class Result:

    def __init__(self, status, model=None, how=''):
        self.status, self.model, self.how = status, model, how


def satisfiable(asserts, budget_s=20.0, seed=1, slices=True):
    """decide satisfiability of a conjunction. status: 'sat' (model is genuine over the reals), 'unsat', 'unknown'"""
    asserts = flatten([a for a in asserts])
    t_end = time.time() + budget_s
    big = len(collect(asserts)[1]) > 40
    uni = unify(asserts) if big else None
    if uni is not None:
        r, _ = check_sat(flatten(uni), True, 1000 * min(20, budget_s))
        if r == 'unsat':
            return Result('unsat', how='unified')
    r, m = check_sat(asserts, True, 1000 * min(20, budget_s))
    if r == 'unsat':
        return Result('unsat', how='linear')
    if r == 'sat' and is_linear(asserts):
        return Result('sat', m, 'linear')
    uni = unify(asserts) if not big else None
    if uni is not None:
        uni = flatten(uni)
        STATS['unified'] = STATS.get('unified', 0) + 1
        r, _ = check_sat(uni, True, 1000 * min(20, budget_s))
        if r == 'unsat':
            return Result('unsat', how='unified')
    # case split on conditions of ite terms that hide inside products
    leaves = []

    def split(bs, depth):
        if len(leaves) > 64 or time.time() > t_end - budget_s * 0.5:
            leaves.append(bs)
            return
        _, conds, nl = collect(bs)
        pick = None
        for c, aid in conds:
            if aid in nl and c.op in ('ge', 'eq', 'var', 'and', 'or'):
                pick = c
                break
        if pick is None:
            leaves.append(bs)
            return
        for val in (True, False):
            nb = flatten(rebuild(bs, cond={pick.key: val}) + [pick if val else sym.b_not(pick)])
            STATS['split'] += 1
            rr, _ = check_sat(nb, True, 5000)
            if rr != 'unsat':
                split(nb, depth + 1)

    split(asserts, 0)
    if not leaves:
        return Result('unsat', how='split')
    unknown = False
    for bs in leaves:
        if is_linear(bs):
            rr, m = check_sat(bs, True, 5000)
            if rr == 'sat':
                return Result('sat', m, 'split')
            if rr == 'unsat':
                continue
        left = t_end - time.time()
        rr, m = check_sat(bs, False, max(200, 1000 * min(left, budget_s * 0.5) / max(1, min(len(leaves), 4))))
        if rr == 'sat':
            return Result('sat', m, 'nonlinear')
        if rr == 'unknown':
            unknown = True
    if not unknown:
        return Result('unsat', how='nonlinear')
    if not slices:
        return Result('unknown')
    # slices: fix most variables, let the solver decide over the remaining ones
    rnd = random.Random(seed)
    names = sorted(collect(asserts)[0].items())
    tries = 0
    t_slice = time.time() + max(4.0, budget_s * 0.75)
    while time.time() < t_slice and tries < 400:
        tries += 1
        bs = rnd.choice(leaves)
        nfree = rnd.choice([1, 1, 2, 2, 3, 4]) if len(names) > 1 else 1
        free = set(n for n, _ in rnd.sample(names, min(nfree, len(names))))
        fixed = {}
        for n, a in names:
            if n not in free:
                fixed[n] = _rand_value(rnd, a)

        def sub(a):
            return sym.E_const(fixed[a.name]) if a.name in fixed else None

        try:
            nb = flatten(rebuild(bs, atom_fn=sub))
        except (sym.Unsupported, ZeroDivisionError):
            continue
        STATS['slices'] += 1
        rr, m = check_sat(nb, True, 500)
        if rr == 'unsat':
            continue
        if rr == 'sat' and is_linear(nb):
            m.reals.update(fixed)
            return Result('sat', m, 'slice')
        rr, m = check_sat(nb, False, 1000)
        if rr == 'sat':
            m.reals.update(fixed)
            return Result('sat', m, 'slice')
    return Result('unknown', how='slices')


def more_models(asserts, k, seed, budget_s=6.0):
    """up to k further models, spread out by pinning randomly chosen variables"""
    asserts = flatten(asserts)
    rnd = random.Random(seed * 7919 + 13)
    names = sorted(collect(asserts)[0].items())
    out = []
    t_end = time.time() + budget_s
    if not names:
        return out
    while len(out) < k and time.time() < t_end:
        sel = rnd.sample(names, max(1, int(len(names) * rnd.choice([0.3, 0.6, 0.9]))))
        fixed = {n: _rand_value(rnd, a) for n, a in sel}

        def sub(a):
            return sym.E_const(fixed[a.name]) if a.name in fixed else None

        try:
            nb = flatten(rebuild(asserts, atom_fn=sub))
        except (sym.Unsupported, ZeroDivisionError):
            continue
        rr, m = check_sat(nb, is_linear(nb), 600)
        if rr == 'sat':
            m.reals.update(fixed)
            out.append(m)
    return out


def _rand_value(rnd, a):
    lo = Fraction(-10) if a.lo is None else a.lo
    hi = Fraction(10) if a.hi is None else a.hi
    k = rnd.random()
    if k < 0.1 and lo <= 0 <= hi:
        return Fraction(0)
    if k < 0.15:
        return lo
    if k < 0.2:
        return hi
    f = Fraction(rnd.randint(0, 64), 64)
    v = lo + (hi - lo) * f
    # a short dyadic near v
    d = Fraction(round(v * 1024), 1024)
    return d if lo <= d <= hi else v


class Float:
    """evaluation of terms in floating point under a full assignment (the abstracted functions get their real meaning)"""

    def __init__(self, reals, bools, rnd):
        self.reals, self.bools, self.rnd = reals, bools, rnd
        self.av, self.bv = {}, {}

    def atom(self, aid):
        v = self.av.get(aid)
        if v is not None:
            return v
        a = POOL.atoms[aid]
        if a.kind == 'var':
            v = self.reals.get(a.name)
            if v is None:
                v = _rand_value(self.rnd, a)
                self.reals[a.name] = v
            v = float(v)
        elif a.kind == 'ite':
            v = self.e(a.args[1] if self.b(a.args[0]) else a.args[2])
        elif a.kind == 'sqrt':
            v = math.sqrt(self.e(a.args[0]))
        elif a.kind == 'den':
            v = self.e(a.args[0])
        elif a.kind == 'uf':
            raise sym.Unsupported('uninterpreted')
        else:
            v = getattr(math, a.kind)(self.e(a.args[0]))
        self.av[aid] = v
        return v

    def e(self, p):
        out = 0.0
        for m, c in p.t.items():
            t = float(c)
            for aid, e in m:
                t *= self.atom(aid)**e
            out += t
        return out

    def b(self, x):
        r = self.bv.get(x.key)
        if r is None:
            if x.op == 'const':
                r = bool(x.args)
            elif x.op == 'var':
                name = x.args if isinstance(x.args, str) else x.args[0]
                r = self.bools.setdefault(name, self.rnd.random() < 0.5)
            elif x.op == 'ge':
                r = self.e(x.args) >= 0
            elif x.op == 'eq':
                r = self.e(x.args) == 0
            elif x.op == 'not':
                r = not self.b(x.args)
            elif x.op == 'and':
                r = all(self.b(y) for y in x.args)
            else:
                r = any(self.b(y) for y in x.args)
            self.bv[x.key] = r
        return r


def witnesses(asserts, seed, model=None, k=6, budget_s=3.0):
    """candidate full assignments under which the assertions evaluate true in floating point: only used to find an input that
    replays when the solver's own model does not (or it gave none); never a discharge"""
    rnd = random.Random(seed * 31 + 5)
    vars_ = sorted(collect(asserts)[0].items())
    out, t_end = [], time.time() + budget_s
    while len(out) < k and time.time() < t_end:
        keep = rnd.choice([0.0, 0.0, 0.5, 0.8]) if model is not None else 0.0
        reals = {}
        for n, a in vars_:
            if model is not None and n in model.reals and rnd.random() < keep:
                reals[n] = model.reals[n]
            else:
                reals[n] = _rand_value(rnd, a)
        ev = Float(reals, dict(model.bools) if model is not None and rnd.random() < 0.5 else {}, rnd)
        try:
            if all(ev.b(b) for b in asserts):
                out.append(Model(ev.reals, ev.bools))
        except (sym.Unsupported, ZeroDivisionError, OverflowError, ValueError):
            continue
    return out


def rounded_model(asserts, model, timeout=1.5):
    """a nearby model whose values are short dyadic rationals (exact in floating point), or None"""
    vars_, _, _ = collect(asserts)
    fixed = {}
    t_end = time.time() + 15
    for den in (1, 4, 64, 4096, 2**20):
        cand = dict(fixed)
        for n, a in vars_.items():
            if n in model.reals:
                v = Fraction(round(model.reals[n] * den), den)
                if a.lo is not None and v < a.lo:
                    v = a.lo
                if a.hi is not None and v > a.hi:
                    v = a.hi
                cand[n] = v
        try:
            nb = flatten(rebuild(asserts, atom_fn=lambda a: sym.E_const(cand[a.name]) if a.name in cand else None))
        except (sym.Unsupported, ZeroDivisionError):
            continue
        rr, m = check_sat(nb, False, 1000 * timeout)
        if rr == 'sat':
            out = dict(model.reals)
            out.update(m.reals)
            out.update(cand)
            return Model(out, model.bools)
        if time.time() > t_end:
            break
    # variable by variable
    order = sorted(vars_)
    fixed = {}
    for n in order:
        if n not in model.reals or time.time() > t_end:
            continue
        for den in (1, 16, 1024, 2**20):
            v = Fraction(round(model.reals[n] * den), den)
            trial = dict(fixed)
            trial[n] = v
            try:
                nb = flatten(rebuild(asserts, atom_fn=lambda a: sym.E_const(trial[a.name]) if a.name in trial else None))
            except (sym.Unsupported, ZeroDivisionError):
                continue
            rr, m = check_sat(nb, False, 1000 * timeout)
            if rr == 'sat':
                fixed = trial
                model = Model({**model.reals, **m.reals, **fixed}, model.bools)
                break
    return model
