"""A JAX interpreter whose values are symbolic.

SymTracer objects flow through the *real* jax transformations of the code under test (jit with its trace cache,
grad, jacfwd, vmap, lax.cond, ...); every primitive that reaches the bottom is evaluated over symbolic reals.
"""
from __future__ import annotations

import math
from fractions import Fraction
from functools import lru_cache

import jax
import numpy as np
from jax._src import core as jcore
from jax._src import dtypes as jdtypes
from jax._src.lax import lax as jlax

from vf import sym
from vf.sym import B, E, Unsupported

# ------------------------------------------------------------------------------------------------- payloads


def is_bool_dtype(dt):
    return np.dtype(dt) == np.bool_


def is_int_dtype(dt):
    return np.issubdtype(np.dtype(dt), np.integer)


def obj(shape):
    return np.empty(shape, dtype=object)


def lift_array(x):
    """numpy/jax concrete array -> object array of E/B (infinities and NaN stay python floats)"""
    if type(x) is np.ndarray and x.dtype == object:
        return x
    a = np.asarray(x)
    out = obj(a.shape)
    if a.dtype == np.bool_:
        for i, v in np.ndenumerate(a):
            out[i] = sym.b_const(bool(v))
    else:
        for i, v in np.ndenumerate(a):
            v = v.item()
            if isinstance(v, float) and not math.isfinite(v):
                out[i] = v
            elif isinstance(v, complex):
                raise Unsupported('complex numbers')
            else:
                out[i] = sym.E_const(v)
    return out


def concrete_of(o, dtype):
    """object array -> numpy array if every element is constant, else None"""
    out = np.empty(o.shape, dtype=np.dtype(dtype))
    for i, v in np.ndenumerate(o):
        if isinstance(v, E):
            c = v.const
            if c is None:
                return None
            out[i] = float(c) if not is_int_dtype(dtype) else int(c)
        elif isinstance(v, B):
            if v.op != 'const':
                return None
            out[i] = v.args
        else:
            out[i] = v
    return out


# --------------------------------------------------------------------------------------------------- tracer
class SymTracer(jcore.Tracer):
    __slots__ = ['o', 'aval']

    def __init__(self, trace, o, dtype, weak_type=False):
        self._trace = trace
        self.o = o
        self.aval = jcore.ShapedArray(o.shape, np.dtype(dtype), weak_type=weak_type)

    def full_lower(self):
        return self

    def __repr__(self):
        return f'Sym{self.o!r}'

    # concretisation points
    def _elem(self):
        if self.o.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return self.o.reshape(-1)[0]

    def __bool__(self):
        if self.o.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return bool(sym.b_lift(self._elem()))

    def __float__(self):
        return float(self._elem())

    def __int__(self):
        return int(self._elem())

    def __index__(self):
        if not is_int_dtype(self.aval.dtype):
            raise TypeError('only integer arrays can be used as an index')
        return self._elem().__index__()

    def __array__(self, dtype=None, copy=None, **kw):
        from vf import npsym
        return npsym.as_symnd(self)

    def tolist(self):
        return self.o.tolist() if self.o.ndim else self._elem()

    def item(self, *a):
        return self._elem() if not a else self.o.item(*a)

    def tobytes(self, *a, **k):
        from vf import npsym
        return npsym.as_symnd(self).tobytes()

    def block_until_ready(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    def __deepcopy__(self, memo):
        return SymTracer(self._trace, self.o.copy(), self.aval.dtype, self.aval.weak_type)

    def __copy__(self):
        return self.__deepcopy__(None)


class SymTrace(jcore.Trace):

    def pure(self, val):
        return SymTracer(self, lift_array(val), jdtypes.dtype(val, canonicalize=True), jdtypes.is_weakly_typed(val))

    lift = pure

    def sublift(self, tracer):
        return SymTracer(self, tracer.o, tracer.aval.dtype, tracer.aval.weak_type)

    def process_primitive(self, prim, tracers, params):
        outs = eval_prim(prim, [t.o for t in tracers], [t.aval for t in tracers], params)
        if prim.multiple_results:
            return [SymTracer(self, o, a.dtype, getattr(a, 'weak_type', False)) for o, a in outs]
        o, a = outs[0]
        return SymTracer(self, o, a.dtype, getattr(a, 'weak_type', False))

    def process_call(self, prim, f, tracers, params):
        with jcore.new_sublevel():
            out = f.call_wrapped(*tracers)
        return [self.full_raise(x) for x in out]

    def process_custom_jvp_call(self, prim, fun, jvp, tracers, *, symbolic_zeros):
        del prim, jvp, symbolic_zeros
        with jcore.new_sublevel():
            out = fun.call_wrapped(*tracers)
        return [self.full_raise(x) for x in out]

    def process_custom_vjp_call(self, prim, fun, fwd, bwd, tracers, out_trees, symbolic_zeros):
        del prim, fwd, bwd, out_trees, symbolic_zeros
        with jcore.new_sublevel():
            out = fun.call_wrapped(*tracers)
        return [self.full_raise(x) for x in out]


_MAIN = None
_MAIN_CM = None


def install():
    """push the symbolic interpreter for the lifetime of the process"""
    global _MAIN, _MAIN_CM
    if _MAIN is None:
        _MAIN_CM = jcore.new_main(SymTrace)
        _MAIN = _MAIN_CM.__enter__()


def cur_trace():
    return _MAIN.with_cur_sublevel()


def mk(o, dtype=np.float64, weak_type=False):
    if not isinstance(o, np.ndarray):
        a = obj(())
        a[()] = o
        o = a
    return SymTracer(cur_trace(), np.asarray(o, dtype=object), dtype, weak_type)


def tracer_of(x):
    if isinstance(x, E):
        return mk(x, np.float64, True)
    if isinstance(x, B):
        return mk(x, np.bool_)
    o = np.asarray(x).view(np.ndarray)
    first = next((v for v in o.reshape(-1) if isinstance(v, (E, B))), None)
    if isinstance(first, B):
        out = obj(o.shape)
        for i, v in np.ndenumerate(o):
            out[i] = sym.b_lift(v)
        return mk(out, np.bool_)
    out = obj(o.shape)
    for i, v in np.ndenumerate(o):
        out[i] = sym.lift(v)
    return mk(out, np.float64)


# ----------------------------------------------------------------------------------------------- primitives
def _ew(fn):
    """elementwise rule"""

    def rule(args, avals, params, out_avals):
        args = np.broadcast_arrays(*args) if len(args) > 1 else args
        out = obj(args[0].shape)
        for i in np.ndindex(out.shape):
            out[i] = fn(*[a[i] for a in args])
        return [out]

    return rule


def _num(x):
    return sym.b_to_e(x) if isinstance(x, B) else x


def _fin(fn):

    def g(*xs):
        return fn(*[_num(x) for x in xs])

    return g


def _add(a, b):
    if isinstance(a, float) or isinstance(b, float):
        x = a if isinstance(a, float) else (0.0 if a.const is None else float(a.const))
        y = b if isinstance(b, float) else (0.0 if b.const is None else float(b.const))
        return x + y
    return a + b


def _mul(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            return a * b
        f, e = (a, b) if isinstance(a, float) else (b, a)
        if e.const is not None:
            return f * float(e.const)
        raise Unsupported('symbolic * non-finite')
    return a * b


def _div(a, b):
    if isinstance(b, float):
        if isinstance(a, float):
            return math.nan
        return sym.ZERO if not math.isnan(b) else b
    if isinstance(a, float):
        c = b.const
        if c is None:
            raise Unsupported('non-finite / symbolic')
        return a * math.copysign(1, c)
    return a / b


def _neg(a):
    return -a


def _sign(a):
    if isinstance(a, float):
        return sym.E_const(math.copysign(1, a))
    return sym.ite(a > 0, sym.ONE_E, sym.ite(a < 0, sym.E_const(-1), sym.ZERO))


def _cmp(op):

    def f(a, b):
        if isinstance(a, B) and isinstance(b, B):
            if op == 'eq':
                return sym.b_iff(a, b)
            if op == 'ne':
                return sym.b_not(sym.b_iff(a, b))
            a, b = _num(a), _num(b)
        a, b = _num(a), _num(b)
        if isinstance(a, float) and isinstance(b, float):
            return sym.b_const({'ge': a >= b, 'le': a <= b, 'gt': a > b, 'lt': a < b, 'eq': a == b, 'ne': a != b}[op])
        if isinstance(a, float):  # put E first
            a, b = b, a
            o = {'ge': 'le', 'le': 'ge', 'gt': 'lt', 'lt': 'gt', 'eq': 'eq', 'ne': 'ne'}[op]
        else:
            o = op
        if isinstance(b, float) and math.isnan(b):
            return sym.b_const(o == 'ne')
        if o == 'ne':
            return sym.b_not(sym.cmp_op(a, b, 'eq'))
        return sym.cmp_op(a, b, o)

    return f


def _logic(name):

    def f(a, b):
        if isinstance(a, B) or isinstance(b, B):
            if name == 'and':
                return sym.b_and(a, b)
            if name == 'or':
                return sym.b_or(a, b)
            return a ^ b
        ca, cb = a.const, b.const
        if ca is None or cb is None:
            raise Unsupported('bitwise operation on symbolic integers')
        x, y = int(ca), int(cb)
        return sym.E_const({'and': x & y, 'or': x | y, 'xor': x ^ y}[name])

    return f


def _not(a):
    if isinstance(a, B):
        return sym.b_not(a)
    if a.const is not None:
        return sym.E_const(~int(a.const))
    raise Unsupported('bitwise not')


def _floorlike(fn):

    def f(a):
        if isinstance(a, float):
            return a
        return sym.E_const(sym.e_round(a, fn))

    return f


def _atan2(y, x):
    cy, cx = (y.const, x.const)
    if cy is not None and cx is not None:
        return sym.E_const(math.atan2(cy, cx))
    return sym.uf('atan2', y, x, lo=Fraction(-math.pi), hi=Fraction(math.pi))


def _pow(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, E) and isinstance(b, E) and a.const is not None and b.const is not None:
        v = float(a.const)**float(b.const)
        return sym.E_const(v)
    return a**b


EW = {
    'add': _fin(_add), 'add_any': _fin(_add), 'sub': _fin(lambda a, b: _add(a, -b)), 'mul': _fin(_mul), 'neg': _fin(_neg),
    'sign': _fin(_sign), 'abs': _fin(sym.eabs), 'max': None, 'min': None, 'sqrt': _fin(sym.sqrt),
    'rsqrt': _fin(lambda a: sym.recip(sym.sqrt(a))), 'square': _fin(lambda a: a * a), 'sin': _fin(sym.esin), 'cos': _fin(sym.ecos),
    'tan': _fin(lambda a: sym.esin(a) / sym.ecos(a)), 'acos': _fin(lambda a: sym.einv('acos', a)),
    'asin': _fin(lambda a: sym.einv('asin', a)), 'atan': _fin(lambda a: sym.einv('atan', a)), 'atan2': _fin(_atan2),
    'eq': _cmp('eq'), 'ne': _cmp('ne'), 'lt': _cmp('lt'), 'le': _cmp('le'), 'gt': _cmp('gt'), 'ge': _cmp('ge'),
    'and': _logic('and'), 'or': _logic('or'), 'xor': _logic('xor'), 'not': _not, 'floor': _floorlike(math.floor),
    'ceil': _floorlike(math.ceil), 'round': _floorlike(round), 'pow': _pow, 'exp': _fin(lambda a: sym.generic_fn('exp', a)),
    'log': _fin(lambda a: sym.generic_fn('log', a)), 'tanh': _fin(lambda a: sym.generic_fn('tanh', a)),
    'exp2': _fin(lambda a: sym.generic_fn('exp2', a)), 'log1p': _fin(lambda a: sym.generic_fn('log1p', a)),
    'expm1': _fin(lambda a: sym.generic_fn('expm1', a)), 'sinh': _fin(lambda a: sym.generic_fn('sinh', a)),
    'cosh': _fin(lambda a: sym.generic_fn('cosh', a)), 'cbrt': None, 'stop_gradient': lambda a: a, 'copy': lambda a: a,
    'copy_p': lambda a: a, 'optimization_barrier': None, 'real': lambda a: a,
    'is_finite': lambda a: sym.b_const(not (isinstance(a, float) and not math.isfinite(a))), 'reduce_precision': lambda a: a,
}


def _maxmin(a, b, mx):
    if isinstance(a, B) or isinstance(b, B):
        return sym.b_or(a, b) if mx else sym.b_and(a, b)
    return sym.emax(a, b) if mx else sym.emin(a, b)


EW['max'] = lambda a, b: _maxmin(a, b, True)
EW['min'] = lambda a, b: _maxmin(a, b, False)
for _k in [k for k, v in EW.items() if v is None]:
    del EW[_k]

RULES = {}


def rule(*names):

    def deco(f):
        for n in names:
            RULES[n] = f
        return f

    return deco


def _divrule(args, avals, params, out_avals):
    if is_int_dtype(out_avals[0].dtype):
        cs = [concrete_of(a, av.dtype) for a, av in zip(args, avals)]
        if any(c is None for c in cs):
            raise Unsupported('symbolic integer division')
        return [lift_array(np.array(np.trunc(cs[0] / cs[1]), dtype=int))]
    return _ew(_fin(_div))(args, avals, params, out_avals)


RULES['div'] = _divrule


@rule('rem')
def _rem(args, avals, params, out_avals):
    cs = [concrete_of(a, av.dtype) for a, av in zip(args, avals)]
    if any(c is None for c in cs):
        # x mod k with x provably within [0, k): identity
        def f(a, b):
            if a.iv[0] is not None and a.iv[0] >= 0 and a.iv[1] is not None and b.iv[0] is not None and a.iv[1] < b.iv[0]:
                return a
            raise Unsupported('symbolic modulo')

        return _ew(f)(args, avals, params, out_avals)
    return [lift_array(np.fmod(cs[0], cs[1]))]


@rule('integer_pow')
def _integer_pow(args, avals, params, out_avals):
    y = params['y']
    return _ew(_fin(lambda a: (a**y if isinstance(a, E) else float(a)**y)))(args, avals, params, out_avals)


@rule('convert_element_type')
def _convert(args, avals, params, out_avals):
    new = out_avals[0].dtype
    old = avals[0].dtype
    a = args[0]
    if is_bool_dtype(new) and not is_bool_dtype(old):
        return _ew(lambda v: sym.b_lift(v))(args, avals, params, out_avals)
    if is_bool_dtype(old) and not is_bool_dtype(new):
        return _ew(_num)(args, avals, params, out_avals)
    if is_int_dtype(new) and not is_int_dtype(old):
        c = concrete_of(a, old)
        if c is None:
            return _ew(_floorlike(math.trunc))(args, avals, params, out_avals)
        return [lift_array(c.astype(new))]
    return [a]


@rule('select_n')
def _select_n(args, avals, params, out_avals):
    which, *cases = args
    if which.shape == () and cases[0].shape != ():
        w = obj(cases[0].shape)
        w[...] = which[()]
        which = w
    out = obj(cases[0].shape)
    isb = is_bool_dtype(avals[0].dtype)
    for i in np.ndindex(out.shape):
        w = which[i]
        if isb:
            out[i] = sym.ite(w, cases[1][i] if len(cases) > 1 else cases[0][i], cases[0][i])
        else:
            if w.const is not None:
                out[i] = cases[int(w.const)][i]
            else:
                r = cases[-1][i]
                for k in range(len(cases) - 2, -1, -1):
                    r = sym.ite(w == k, cases[k][i], r)
                out[i] = r
    return [out]


@rule('clamp')
def _clamp(args, avals, params, out_avals):
    return _ew(lambda lo, x, hi: _maxmin(_maxmin(x, lo, True), hi, False))(args, avals, params, out_avals)


@rule('broadcast_in_dim')
def _bid(args, avals, params, out_avals):
    x = args[0]
    shape, bd = params['shape'], params['broadcast_dimensions']
    newshape = [1] * len(shape)
    for i, d in enumerate(bd):
        newshape[d] = x.shape[i]
    out = obj(shape)
    out[...] = x.reshape(newshape)
    return [out]


@rule('reshape')
def _reshape(args, avals, params, out_avals):
    return [args[0].reshape(out_avals[0].shape)]


@rule('squeeze', 'expand_dims')
def _squeeze(args, avals, params, out_avals):
    return [args[0].reshape(out_avals[0].shape)]


@rule('transpose')
def _transpose(args, avals, params, out_avals):
    return [np.transpose(args[0], params['permutation'])]


@rule('concatenate')
def _concat(args, avals, params, out_avals):
    return [np.concatenate(args, axis=params['dimension'])]


@rule('slice')
def _slice(args, avals, params, out_avals):
    st = params['strides'] or [1] * args[0].ndim
    return [args[0][tuple(slice(a, b, c) for a, b, c in zip(params['start_indices'], params['limit_indices'], st))]]


@rule('rev')
def _rev(args, avals, params, out_avals):
    return [np.flip(args[0], params['dimensions'])]


@rule('device_put')
def _device_put(args, avals, params, out_avals):
    return list(args)


@rule('optimization_barrier')
def _ob(args, avals, params, out_avals):
    return list(args)


@rule('zeros_like')
def _zl(args, avals, params, out_avals):
    return [lift_array(np.zeros(out_avals[0].shape))]


@rule('split')
def _split(args, avals, params, out_avals):
    return np.split(args[0], np.cumsum(params['sizes'])[:-1], axis=params['axis'])


def _matsum(prods):
    t = {}
    for p in prods:
        if isinstance(p, float):
            raise Unsupported('non-finite value in a sum')
        for m, c in p.t.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v:
                    t[m] = v
                else:
                    del t[m]
    return E(t)


@rule('dot_general')
def _dot_general(args, avals, params, out_avals):
    (lc, rc), (lb, rb) = params['dimension_numbers']
    a, b = args
    la = [i for i in range(a.ndim) if i not in lc and i not in lb]
    ra = [i for i in range(b.ndim) if i not in rc and i not in rb]
    A = np.transpose(a, list(lb) + la + list(lc))
    Bm = np.transpose(b, list(rb) + ra + list(rc))
    bs = [a.shape[i] for i in lb]
    ls = [a.shape[i] for i in la]
    rs = [b.shape[i] for i in ra]
    k = int(np.prod([a.shape[i] for i in lc], dtype=int))
    A = A.reshape(int(np.prod(bs, dtype=int)), int(np.prod(ls, dtype=int)), k)
    Bm = Bm.reshape(int(np.prod(bs, dtype=int)), int(np.prod(rs, dtype=int)), k)
    out = obj((A.shape[0], A.shape[1], Bm.shape[1]))
    for n, i, j in np.ndindex(out.shape):
        out[n, i, j] = _matsum([_mul(_num(A[n, i, q]), _num(Bm[n, j, q])) for q in range(k)])
    return [out.reshape(out_avals[0].shape)]


def _reduce(fn, init):

    def r(args, avals, params, out_avals):
        x = args[0]
        axes = tuple(params['axes'])
        keep = [i for i in range(x.ndim) if i not in axes]
        y = np.transpose(x, keep + list(axes)).reshape([x.shape[i] for i in keep] + [-1])
        out = obj(y.shape[:-1])
        for i in np.ndindex(out.shape):
            acc = init
            for v in y[i]:
                acc = v if acc is None else fn(acc, v)
            out[i] = acc
        return [out]

    return r


RULES['reduce_sum'] = _reduce(_fin(_add), sym.ZERO)
RULES['reduce_prod'] = _reduce(_fin(_mul), sym.ONE_E)
RULES['reduce_max'] = _reduce(EW['max'], None)
RULES['reduce_min'] = _reduce(EW['min'], None)
RULES['reduce_and'] = _reduce(lambda a, b: sym.b_and(a, b), sym.b_const(True))
RULES['reduce_or'] = _reduce(lambda a, b: sym.b_or(a, b), sym.b_const(False))


def _cum(fn):

    def r(args, avals, params, out_avals):
        x = args[0]
        ax = params['axis']
        x = np.moveaxis(x, ax, -1)
        if params.get('reverse'):
            x = x[..., ::-1]
        out = obj(x.shape)
        for i in np.ndindex(x.shape[:-1]):
            acc = None
            for j in range(x.shape[-1]):
                acc = x[i][j] if acc is None else fn(acc, x[i][j])
                out[i + (j, )] = acc
        if params.get('reverse'):
            out = out[..., ::-1]
        return [np.moveaxis(out, -1, ax)]

    return r


RULES['cumsum'] = _cum(_fin(_add))
RULES['cumprod'] = _cum(_fin(_mul))
RULES['cummax'] = _cum(EW['max'])
RULES['cummin'] = _cum(EW['min'])


def _argm(mx):

    def r(args, avals, params, out_avals):
        x = args[0]
        (ax, ) = params['axes']
        x = np.moveaxis(x, ax, -1)
        out = obj(x.shape[:-1])
        for i in np.ndindex(out.shape):
            best, bi = _num(x[i][0]), sym.ZERO
            for j in range(1, x.shape[-1]):
                v = _num(x[i][j])
                better = (v > best) if mx else (v < best)
                bi = sym.ite(better, sym.E_const(j), bi)
                best = sym.ite(better, v, best)
            out[i] = bi
        return [out]

    return r


RULES['argmax'] = _argm(True)
RULES['argmin'] = _argm(False)


@rule('sort')
def _sort(args, avals, params, out_avals):
    """stable sort by the first num_keys operands: rank each element, permute by indicator sums"""
    dim, nk = params['dimension'], params['num_keys']
    xs = [np.moveaxis(a, dim, -1) for a in args]
    n = xs[0].shape[-1]
    outs = [obj(x.shape) for x in xs]
    for idx in np.ndindex(xs[0].shape[:-1]):
        keys = [[_num(x[idx][j]) for x in xs[:nk]] for j in range(n)]

        def before(i, j):  # element i strictly before j by keys
            r = sym.b_const(False)
            for a, b in zip(reversed(keys[i]), reversed(keys[j])):
                r = sym.b_or(_cmp('lt')(a, b), sym.b_and(_cmp('eq')(a, b), r))
            return r

        lt = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1, n):
                bji = before(j, i)  # stable: i before j unless j strictly smaller
                lt[i][j] = sym.b_not(bji)
                lt[j][i] = bji
        # decide the permutation by forking the path (each permutation is one path)
        order = list(range(n))
        import functools
        order.sort(key=functools.cmp_to_key(lambda i, j: 0 if i == j else (-1 if bool(lt[i][j]) else 1)))
        for x, o in zip(xs, outs):
            for k, j in enumerate(order):
                o[idx + (k, )] = x[idx][j]
    return [np.moveaxis(o, -1, dim) for o in outs]


@rule('iota')
def _iota(args, avals, params, out_avals):
    shape = params['shape']
    d = params['dimension']
    a = np.broadcast_to(np.arange(shape[d]).reshape([-1 if i == d else 1 for i in range(len(shape))]), shape)
    return [lift_array(a)]


def _by_index(prim, nmoved):
    """data-movement primitives: run the real primitive on element numbers, then pick the elements.
    nmoved = operand positions that carry data (the rest must be concrete indices)"""

    def r(args, avals, params, out_avals):
        table = []
        conc = []
        for k, (a, av) in enumerate(zip(args, avals)):
            if k in nmoved:
                ids = np.arange(len(table) + 1, len(table) + 1 + a.size, dtype=np.int64).reshape(a.shape)
                table.extend(a.reshape(-1))
                conc.append(ids)
            else:
                c = concrete_of(a, av.dtype)
                if c is None:
                    return _symbolic_index(prim, args, avals, params, out_avals, nmoved)
                conc.append(c)
        p = dict(params)
        if prim.name == 'gather':
            p['fill_value'] = 0
        res = np.asarray(prim.bind(*[jax.numpy.asarray(c) for c in conc], **p))
        out = obj(res.shape)
        for i, v in np.ndenumerate(res):
            if v <= 0 or v > len(table):
                out[i] = math.nan if not is_int_dtype(out_avals[0].dtype) else sym.E_const(-(2**31))
            else:
                out[i] = table[v - 1]
        return [out]

    return r


def _symbolic_index(prim, args, avals, params, out_avals, nmoved):
    """index operands are symbolic: fork on their values (finite ranges only)"""
    new = list(args)
    for k, (a, av) in enumerate(zip(args, avals)):
        if k in nmoved:
            continue
        if concrete_of(a, av.dtype) is None:
            b = obj(a.shape)
            for i, v in np.ndenumerate(a):
                b[i] = sym.E_const(_concretise_int(v))
            new[k] = b
    return _by_index(prim, nmoved)(new, avals, params, out_avals)


def _concretise_int(v):
    if isinstance(v, B):
        return int(bool(v))
    if v.const is not None:
        return int(v.const)
    lo, hi = v.iv
    if lo is None or hi is None or hi - lo > 64:
        raise Unsupported('unbounded symbolic index')
    for k in range(math.ceil(lo), math.floor(hi)):
        if bool(v == k):
            return k
    return math.floor(hi)


from jax._src.lax import slicing as _jslicing  # noqa: E402

RULES['gather'] = _by_index(_jslicing.gather_p, (0, ))
RULES['scatter'] = _by_index(_jslicing.scatter_p, (0, 2))
RULES['dynamic_slice'] = _by_index(_jslicing.dynamic_slice_p, (0, ))
RULES['dynamic_update_slice'] = _by_index(_jslicing.dynamic_update_slice_p, (0, 1))
RULES['pad'] = _by_index(jlax.pad_p, (0, 1))


def _scatter_acc(prim, fn):

    def r(args, avals, params, out_avals):
        opnd, idx, upd = args
        c = concrete_of(idx, avals[1].dtype)
        if c is None:
            b = obj(idx.shape)
            for i, v in np.ndenumerate(idx):
                b[i] = sym.E_const(_concretise_int(v))
            c = concrete_of(b, avals[1].dtype)
        out = opnd.copy().reshape(-1)
        flat = upd.reshape(-1)
        p = dict(params)
        p['update_jaxpr'] = None
        p['update_consts'] = ()
        # find, for each update element, where it lands
        for k in range(flat.size):
            hot = np.zeros(upd.size, dtype=np.float64)
            hot[k] = 1.0
            res = np.asarray(
                _jslicing.scatter_add(
                    jax.numpy.zeros(opnd.shape), jax.numpy.asarray(c), jax.numpy.asarray(hot.reshape(upd.shape)), params['dimension_numbers'],
                    indices_are_sorted=params['indices_are_sorted'], unique_indices=params['unique_indices'], mode=params['mode']
                )
            ).reshape(-1)
            for j in np.nonzero(res)[0]:
                out[j] = fn(out[j], flat[k])
        return [out.reshape(opnd.shape)]

    return r


RULES['scatter-add'] = RULES['scatter_add'] = _scatter_acc(_jslicing.scatter_add_p, _fin(_add))
RULES['scatter-mul'] = RULES['scatter_mul'] = _scatter_acc(_jslicing.scatter_mul_p, _fin(_mul))
RULES['scatter-max'] = RULES['scatter_max'] = _scatter_acc(None, EW['max'])
RULES['scatter-min'] = RULES['scatter_min'] = _scatter_acc(None, EW['min'])


# -- higher order
def eval_closed(cj, args, avals):
    return eval_jaxpr(cj.jaxpr, [lift_array(c.o if isinstance(c, SymTracer) else c) for c in cj.consts], args)


def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        if isinstance(v, jcore.Literal):
            return lift_array(v.val)
        return env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = c
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        avs = [v.aval for v in eqn.invars]
        outs = eval_prim(eqn.primitive, ins, avs, eqn.params, [v.aval for v in eqn.outvars])
        for v, (o, _) in zip(eqn.outvars, outs):
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


@rule('pjit', 'closed_call', 'core_closed_call', 'xla_call', 'remat2', 'checkpoint', 'custom_lin')
def _pjit(args, avals, params, out_avals):
    cj = params.get('jaxpr', params.get('call_jaxpr'))
    if isinstance(cj, jcore.Jaxpr):
        return eval_jaxpr(cj, [], args)
    return eval_closed(cj, args, avals)


@rule('custom_jvp_call', 'custom_vjp_call_jaxpr')
def _cj(args, avals, params, out_avals):
    return eval_closed(params.get('call_jaxpr') or params['fun_jaxpr'], args, avals)


@rule('cond')
def _cond(args, avals, params, out_avals):
    idx, *ops = args
    branches = params['branches']
    i = idx[()]
    if isinstance(i, B):
        i = sym.b_to_e(i)
    if i.const is not None:
        k = min(max(int(i.const), 0), len(branches) - 1)
        return eval_closed(branches[k], ops, avals[1:])
    outs = []
    for k, b in enumerate(branches):
        sym.POOL.guards.append(_idx_is(i, k))
        try:
            outs.append(eval_closed(b, ops, avals[1:]))
        finally:
            sym.POOL.guards.pop()
    res = []
    for j in range(len(outs[0])):
        o = obj(outs[0][j].shape)
        for ix in np.ndindex(o.shape):
            v = outs[-1][j][ix]
            for k in range(len(branches) - 2, -1, -1):
                v = sym.ite(_idx_is(i, k), outs[k][j][ix], v)
            o[ix] = v
        res.append(o)
    return res


def _idx_is(i, k):
    """index i == k, simplifying 0/1 ite indices back to their condition"""
    if len(i.t) == 1:
        (m, c), = i.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = sym.POOL.atoms[m[0][0]]
            if a.kind == 'ite' and a.args[1].const is not None and a.args[2].const is not None:
                return sym.b_or(
                    sym.b_and(a.args[0], sym.b_const(a.args[1].const == k)),
                    sym.b_and(sym.b_not(a.args[0]), sym.b_const(a.args[2].const == k))
                )
    return i == k


@rule('while')
def _while(args, avals, params, out_avals):
    cn, bn = params['cond_nconsts'], params['body_nconsts']
    cc, bc, st = args[:cn], args[cn:cn + bn], list(args[cn + bn:])
    for _ in range(10000):
        (p, ) = eval_closed(params['cond_jaxpr'], list(cc) + st, None)
        if not bool(sym.b_lift(p[()])):
            return st
        st = eval_closed(params['body_jaxpr'], list(bc) + st, None)
    raise Unsupported('loop bound exceeded')


@rule('scan')
def _scan(args, avals, params, out_avals):
    nc, ncar = params['num_consts'], params['num_carry']
    consts, carry, xs = list(args[:nc]), list(args[nc:nc + ncar]), list(args[nc + ncar:])
    n = params['length']
    if n > 2000:
        raise Unsupported('scan too long')
    ys = []
    order = range(n - 1, -1, -1) if params['reverse'] else range(n)
    for i in order:
        out = eval_closed(params['jaxpr'], consts + carry + [x[i] for x in xs], None)
        carry = out[:ncar]
        ys.append(out[ncar:])
    if params['reverse']:
        ys.reverse()
    stacked = []
    for k, av in enumerate(out_avals[ncar:]):
        o = obj(av.shape)
        for i in range(n):
            o[i] = ys[i][k]
        stacked.append(o)
    return carry + stacked


@rule('custom_linear_solve')
def _cls(args, avals, params, out_avals):
    raise Unsupported('linear solve on symbolic matrices')


STATS = {'prims': 0}


def eval_prim(prim, args, avals, params, out_avals=None):
    STATS['prims'] += 1
    name = prim.name
    if out_avals is None:
        absargs = [jcore.ShapedArray(a.shape, av.dtype, weak_type=getattr(av, 'weak_type', False)) for a, av in zip(args, avals)]
        with _quiet():
            out = prim.abstract_eval(*absargs, **params)[0]
        out_avals = list(out) if prim.multiple_results else [out]
    if name in EW:
        outs = _ew(EW[name])(args, avals, params, out_avals)
    elif name in RULES:
        if name in ('sort', 'cond') or True:
            outs = RULES[name](args, avals, params, out_avals)
    else:
        # every operand concrete: let jax do it
        cs = [concrete_of(a, av.dtype) for a, av in zip(args, avals)]
        if all(c is not None for c in cs):
            res = prim.bind(*[jax.numpy.asarray(c) for c in cs], **params)
            res = res if prim.multiple_results else [res]
            outs = [lift_array(r.o if isinstance(r, SymTracer) else r) for r in res]
        else:
            raise Unsupported(f'primitive {name}')
    res = []
    for o, av in zip(outs, out_avals):
        if not isinstance(o, np.ndarray):
            a = obj(())
            a[()] = o
            o = a
        res.append((o, av))
    return res


class _quiet:

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False
