"""Symbolic numpy: an ndarray subclass holding E/B elements plus module shims for the code under test.

SymNd is a real numpy array (dtype object), so views, in-place writes and aliasing behave as in numpy.
"""
from __future__ import annotations

import builtins
import inspect
import math
import types

import jax
import numpy as np

from vf import jaxsym, sym
from vf.jaxsym import SymTracer
from vf.sym import B, E, Unsupported

SYMTYPES = (E, B, SymTracer)


class SymNd(np.ndarray):
    __array_priority__ = 900

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return np_ufunc(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return call_np(func, args, kwargs)

    def __jax_array__(self):
        return jaxsym.tracer_of(self)

    def __setitem__(self, key, value):
        if isinstance(value, np.ndarray) and value.ndim and value.size == 1 and self.dtype == object:
            keys = key if isinstance(key, tuple) else (key, )
            if len(keys) == self.ndim and all(isinstance(k, (int, np.integer)) for k in keys):
                value = value.reshape(-1)[0]
                value = value.item() if isinstance(value, np.generic) else value
        np.ndarray.__setitem__(self, key, value)

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return bool(sym.b_lift(self.reshape(-1).view(np.ndarray)[0]))

    def __float__(self):
        return float(self._one())

    def _one(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return self.view(np.ndarray).reshape(-1)[0]

    def item(self, *a):
        return self._one() if not a else self.view(np.ndarray).item(*a)

    def astype(self, dtype, *a, **k):
        return cast(self, dtype).copy()

    def tobytes(self, *a, **k):
        return SymKey(self.shape, list(self.reshape(-1).view(np.ndarray)))

    tostring = tobytes

    def any(self, axis=None, **k):
        return call_np(np.any, (self, ), dict(axis=axis))

    def all(self, axis=None, **k):
        return call_np(np.all, (self, ), dict(axis=axis))

    def sum(self, axis=None, **k):
        return call_np(np.sum, (self, ), dict(axis=axis))

    def max(self, axis=None, **k):
        return call_np(np.max, (self, ), dict(axis=axis))

    def min(self, axis=None, **k):
        return call_np(np.min, (self, ), dict(axis=axis))

    def mean(self, axis=None, **k):
        s = self.sum(axis=axis)
        n = self.size if axis is None else self.shape[axis]
        return s / n

    def dot(self, o):
        return call_np(np.dot, (self, o), {})

    def clip(self, a_min=None, a_max=None, **k):
        return call_np(np.clip, (self, a_min, a_max), {})

    def copy(self, order='C'):
        return wrap(np.array(self.view(np.ndarray), copy=True))

    def __deepcopy__(self, memo):
        return self.copy()


class SymKey:
    """stands for the bytes of a symbolic array: equal exactly when shape and all elements are (bit patterns of equal floats
    differ only for -0.0, which the real numbers do not have)"""

    def __init__(self, shape, vals):
        self.shape, self.vals = shape, vals

    def __hash__(self):
        return 0

    def __eq__(self, o):
        if not isinstance(o, SymKey) or self.shape != o.shape:
            return False
        return all(bool(sym.b_lift(a == b)) for a, b in zip(self.vals, o.vals))


def cast(r, dtype):
    """values of an array converted to dtype: booleans, integers (truncation) or unchanged"""
    dt = getattr(dtype, '_real', dtype)
    kind = None if dt is None else np.dtype(dt).kind
    if kind == 'b':
        return wrap(_ewobj(sym.b_lift, r))
    if kind in 'iu' if kind else False:
        return wrap(_ewobj(lambda v: v if isinstance(v, B) else sym.E_const(sym.e_round(sym.lift(v), math.trunc)), r))
    return r


def _ewobj(fn, r):
    out = jaxsym.obj(r.shape)
    for i, v in np.ndenumerate(r.view(np.ndarray)):
        out[i] = fn(v)
    return out


def wrap(o):
    o = np.asarray(o, dtype=object)
    return o.view(SymNd)


def unwrap(x):
    return x.view(np.ndarray) if isinstance(x, SymNd) else x


def elem(x):
    """0-d object arrays -> element; keeps numbers"""
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x[()]
    return x


def has_sym(x, depth=0):
    if isinstance(x, (E, B, SymTracer)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return isinstance(x, SymNd) or any(isinstance(v, (E, B, SymTracer)) for v in x.reshape(-1))
        return False
    if depth < 4:
        if isinstance(x, (list, tuple)):
            return any(has_sym(v, depth + 1) for v in x)
        if isinstance(x, dict):
            return any(has_sym(v, depth + 1) for v in x.values())
    return False


def as_symnd(x):
    """anything array-like -> SymNd (always fresh memory)"""
    return wrap(_to_obj(x))


def _to_obj(x):
    if isinstance(x, SymTracer):
        return x.o.copy()
    if isinstance(x, SymNd):
        o = x.view(np.ndarray).copy()
        flat = o.reshape(-1)
        for i, v in enumerate(flat):
            if isinstance(v, (int, bool, np.number)):
                flat[i] = sym.lift(v)
        return flat.reshape(o.shape)
    if isinstance(x, (E, B)):
        a = jaxsym.obj(())
        a[()] = x
        return a
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            out = jaxsym.obj(x.shape)
            flat = [_to_obj(v) if isinstance(v, (SymTracer, np.ndarray)) else v for v in x.reshape(-1)]
            if any(isinstance(v, np.ndarray) and v.ndim for v in flat):
                return np.stack(flat).reshape(x.shape + flat[0].shape)
            for i, v in zip(np.ndindex(x.shape), flat):
                out[i] = v[()] if isinstance(v, np.ndarray) else (v if isinstance(v, (E, B, float)) else sym.lift(v))
            return out
        return jaxsym.lift_array(x)
    if isinstance(x, jax.Array):
        return jaxsym.lift_array(np.asarray(x))
    if isinstance(x, (list, tuple)):
        parts = [_to_obj(v) for v in x]
        if not parts:
            return jaxsym.obj((0, ))
        shapes = {p.shape for p in parts}
        if len(shapes) != 1:
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        out = jaxsym.obj((len(parts), ) + parts[0].shape)
        for i, p in enumerate(parts):
            out[i] = p[()] if p.ndim == 0 else p
        return out
    return jaxsym.lift_array(np.asarray(x))


def _ret(o):
    """numpy functions return scalars for 0-d results"""
    if isinstance(o, np.ndarray):
        if o.ndim == 0:
            return o[()]
        return o if isinstance(o, SymNd) else wrap(o)
    return o


def ew(fn, *arrs):
    arrs = [_to_obj(a) for a in arrs]
    arrs = np.broadcast_arrays(*arrs)
    out = jaxsym.obj(arrs[0].shape)
    for i in np.ndindex(out.shape):
        out[i] = fn(*[a[i] for a in arrs])
    return _ret(out)


UFUNCS = {
    'add': jaxsym.EW['add'], 'subtract': jaxsym.EW['sub'], 'multiply': jaxsym.EW['mul'],
    'divide': lambda a, b: jaxsym._div(jaxsym._num(a), jaxsym._num(b)), 'true_divide': lambda a, b: jaxsym._div(jaxsym._num(a), jaxsym._num(b)),
    'negative': jaxsym.EW['neg'], 'positive': lambda a: a, 'absolute': jaxsym.EW['abs'], 'fabs': jaxsym.EW['abs'],
    'power': jaxsym._pow, 'float_power': jaxsym._pow, 'square': jaxsym.EW['square'], 'sqrt': jaxsym.EW['sqrt'], 'sign': jaxsym.EW['sign'],
    'maximum': jaxsym.EW['max'], 'minimum': jaxsym.EW['min'], 'fmax': jaxsym.EW['max'], 'fmin': jaxsym.EW['min'],
    'less': jaxsym.EW['lt'], 'less_equal': jaxsym.EW['le'], 'greater': jaxsym.EW['gt'], 'greater_equal': jaxsym.EW['ge'],
    'equal': jaxsym.EW['eq'], 'not_equal': jaxsym.EW['ne'], 'logical_and': lambda a, b: sym.b_and(sym.b_lift(a), sym.b_lift(b)),
    'logical_or': lambda a, b: sym.b_or(sym.b_lift(a), sym.b_lift(b)), 'logical_not': lambda a: sym.b_not(sym.b_lift(a)),
    'logical_xor': lambda a, b: sym.b_lift(a) ^ sym.b_lift(b),
    'bitwise_and': jaxsym.EW['and'], 'bitwise_or': jaxsym.EW['or'], 'bitwise_xor': jaxsym.EW['xor'], 'invert': jaxsym.EW['not'],
    'sin': jaxsym.EW['sin'], 'cos': jaxsym.EW['cos'], 'tan': jaxsym.EW['tan'], 'arccos': jaxsym.EW['acos'], 'arcsin': jaxsym.EW['asin'],
    'arctan': jaxsym.EW['atan'], 'arctan2': jaxsym.EW['atan2'], 'exp': jaxsym.EW['exp'], 'log': jaxsym.EW['log'], 'tanh': jaxsym.EW['tanh'],
    'isfinite': jaxsym.EW['is_finite'], 'isnan': lambda a: sym.b_const(isinstance(a, float) and a != a),
    'isinf': lambda a: sym.b_const(isinstance(a, float) and math.isinf(a)), 'floor': jaxsym.EW['floor'], 'ceil': jaxsym.EW['ceil'],
    'rint': jaxsym.EW['round'], 'conjugate': lambda a: a, 'deg2rad': lambda a: a * (math.pi / 180), 'radians': lambda a: a * (math.pi / 180),
    'reciprocal': lambda a: 1 / a, 'hypot': lambda a, b: sym.sqrt(a * a + b * b),
}


def np_ufunc(ufunc, method, inputs, out, kw):
    name = ufunc.__name__
    if method == '__call__' and any(isinstance(i, SymTracer) or (isinstance(i, jax.Array) and not isinstance(i, np.ndarray)) for i in inputs):
        # mixing with jax arrays gives jax arrays
        if out is None and hasattr(jax.numpy, name):
            return jax_call(getattr(jax.numpy, name), inputs, kw)
    if name == 'matmul' and method == '__call__':
        return _store(_matmul(*inputs), out)
    if name in ('add', 'multiply', 'maximum', 'minimum', 'logical_and', 'logical_or') and method == 'reduce':
        f = {'add': np.sum, 'multiply': np.prod, 'maximum': np.max, 'minimum': np.min, 'logical_and': np.all, 'logical_or': np.any}[name]
        return call_np(f, (inputs[0], ), dict(axis=kw.get('axis', 0), keepdims=kw.get('keepdims', False)))
    if method != '__call__' or name not in UFUNCS:
        raise Unsupported(f'numpy ufunc {name}.{method}')
    if kw.get('where', True) is not True:
        raise Unsupported('ufunc where=')
    return _store(ew(UFUNCS[name], *inputs), out)


def _store(res, out):
    if out is None:
        return res
    o = out[0] if isinstance(out, tuple) else out
    if not isinstance(o, SymNd) and o.dtype != object:
        raise Unsupported('in-place write of symbolic values into a float array')
    o.view(np.ndarray)[...] = unwrap(res)
    return o


def _matmul(a, b):
    a, b = _to_obj(a), _to_obj(b)
    return _ret(_mm(a, b))


def _mm(a, b):
    if a.ndim == 1 and b.ndim == 1:
        return jaxsym._matsum([x * y for x, y in zip(a, b, strict=True)])
    if a.ndim == 1:
        return _mm(a[None, :], b)[..., 0, :]
    if b.ndim == 1:
        return _mm(a, b[:, None])[..., :, 0]
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('batched numpy matmul')
    if a.shape[1] != b.shape[0]:
        raise ValueError(f'matmul: shapes {a.shape} {b.shape} mismatch')
    out = jaxsym.obj((a.shape[0], b.shape[1]))
    for i, j in np.ndindex(out.shape):
        out[i, j] = jaxsym._matsum([jaxsym._mul(x, y) for x, y in zip(a[i], b[:, j])])
    return out


def _red(fn, init):

    def f(a, axis=None, keepdims=False, **kw):
        a = _to_obj(a)
        if axis is None:
            axes = tuple(range(a.ndim))
        else:
            axes = tuple(x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis, )))
        (o, ) = jaxsym._reduce(fn, init)([a], None, {'axes': axes}, None)
        if keepdims:
            o = np.expand_dims(o, axes)
        return _ret(o)

    return f


def _norm(x, ord=None, axis=None, keepdims=False):
    a = _to_obj(x)
    if ord not in (None, 2, 'fro', 1, np.inf):
        raise Unsupported('norm order')
    if ord == 2 and a.ndim == 2 and axis is None:
        raise Unsupported('spectral norm')
    if ord == 1:
        return _red(jaxsym.EW['add'], sym.ZERO)(ew(sym.eabs, a), axis=axis, keepdims=keepdims)
    if ord is np.inf or ord == math.inf:
        return _red(jaxsym.EW['max'], None)(ew(sym.eabs, a), axis=axis, keepdims=keepdims)
    sq = ew(lambda v: v * v, a)
    s = _red(jaxsym.EW['add'], sym.ZERO)(sq, axis=axis, keepdims=keepdims)
    return ew(sym.sqrt, s)


def _clip(a, a_min=None, a_max=None, out=None, *, min=None, max=None, **kw):
    a_min = min if min is not None else a_min
    a_max = max if max is not None else a_max
    r = a
    if a_min is not None:
        r = ew(jaxsym.EW['max'], r, a_min)
    if a_max is not None:
        r = ew(jaxsym.EW['min'], r, a_max)
    if r is a:
        raise ValueError('One of max or min must be given')
    return _store(r, out)


def _array(x, dtype=None, copy=True, **kw):
    r = as_symnd(x)
    if kw.get('ndmin'):
        while r.ndim < kw['ndmin']:
            r = r[None]
    return cast(r, dtype)


def _asarray(x, dtype=None, **kw):
    if isinstance(x, SymNd):
        return cast(x, dtype)
    return _array(x, dtype)


def _where(c, a=None, b=None):
    if a is None:
        raise Unsupported('np.where with one argument')
    return ew(lambda c, x, y: sym.ite(sym.b_lift(c), x, y), c, a, b)


def _allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    d = ew(lambda x, y: sym.b_and(sym.eabs(x - y) <= atol + rtol * sym.eabs(y)), a, b)
    return _red(lambda x, y: sym.b_and(x, y), sym.b_const(True))(d)


def _isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return ew(lambda x, y: sym.eabs(x - y) <= atol + rtol * sym.eabs(y), a, b)


def _array_equal(a, b, **k):
    a, b = _to_obj(a), _to_obj(b)
    if a.shape != b.shape:
        return False
    return _red(lambda x, y: sym.b_and(x, y), sym.b_const(True))(ew(jaxsym.EW['eq'], a, b)) if a.size else True


def _structural(func):

    def f(*args, **kw):
        args2 = _map_struct(args)
        kw2 = {k: _map_struct(v) for k, v in kw.items()}
        kw2.pop('dtype', None)
        r = func(*args2, **kw2)
        if isinstance(r, (list, tuple)):
            return type(r)(wrap(x) if isinstance(x, np.ndarray) else x for x in r)
        if isinstance(r, np.ndarray):
            return wrap(r)
        return r

    return f


def _map_struct(x):
    if isinstance(x, (SymTracer, E, B)):
        return _to_obj(x)
    if isinstance(x, SymNd):
        return x.view(np.ndarray)
    if isinstance(x, jax.Array):
        return jaxsym.lift_array(np.asarray(x))
    if isinstance(x, np.ndarray) and x.dtype.kind == 'f':
        return jaxsym.lift_array(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_map_struct(v) for v in x)
    return x


def _argext(mx):

    def f(a, axis=None, **k):
        a = _to_obj(a)
        if axis is None:
            a, axis = a.reshape(-1), 0
        (o, ) = jaxsym._argm(mx)([a], None, {'axes': (axis % a.ndim, )}, None)
        r = jaxsym.obj(o.shape)
        for i, v in np.ndenumerate(o):
            r[i] = jaxsym._concretise_int(v)
        return r[()] if r.ndim == 0 else r.astype(int)

    return f


def _copyto(dst, src, **k):
    if not isinstance(dst, SymNd):
        raise Unsupported('copyto into a float array')
    dst.view(np.ndarray)[...] = _to_obj(src)


def _cross(a, b, **k):
    a, b = _to_obj(a), _to_obj(b)
    return wrap(np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object))


def _full_like(a, v, **k):
    o = jaxsym.obj(np.shape(unwrap(a)) if not isinstance(a, SymTracer) else a.shape)
    o[...] = _to_obj(v)
    return wrap(o)


def _full(shape, v, **k):
    o = jaxsym.obj(shape)
    o[...] = _to_obj(v)
    return wrap(o)


def _count_nonzero(a, **k):
    return _red(jaxsym.EW['add'], sym.ZERO)(ew(lambda v: sym.b_to_e(sym.b_lift(v)), a), **k)


NP = {
    np.array: _array, np.asarray: _asarray, np.asanyarray: _asarray, np.ascontiguousarray: _asarray,
    np.copy: lambda a, *x, **k: as_symnd(a), np.clip: _clip, np.linalg.norm: _norm,
    np.sum: _red(jaxsym.EW['add'], sym.ZERO), np.prod: _red(jaxsym.EW['mul'], sym.ONE_E), np.max: _red(jaxsym.EW['max'], None),
    np.min: _red(jaxsym.EW['min'], None), np.amax: _red(jaxsym.EW['max'], None), np.amin: _red(jaxsym.EW['min'], None),
    np.any: _red(lambda a, b: sym.b_or(sym.b_lift(a), sym.b_lift(b)), sym.b_const(False)),
    np.all: _red(lambda a, b: sym.b_and(sym.b_lift(a), sym.b_lift(b)), sym.b_const(True)),
    np.dot: _matmul, np.inner: _matmul, np.vdot: _matmul, np.where: _where, np.allclose: _allclose, np.isclose: _isclose,
    np.array_equal: _array_equal, np.argmax: _argext(True), np.argmin: _argext(False), np.copyto: _copyto, np.cross: _cross,
    np.full_like: _full_like, np.full: _full, np.outer: lambda a, b: ew(lambda x, y: x * y, _to_obj(a).reshape(-1, 1), _to_obj(b).reshape(1, -1)),
    np.zeros_like: lambda a, *x, **k: _full_like(a, 0.0), np.ones_like: lambda a, *x, **k: _full_like(a, 1.0),
    np.empty_like: lambda a, *x, **k: _full_like(a, 0.0), np.trunc: lambda a: ew(jaxsym._floorlike(math.trunc), a), np.float64: lambda x: elem(_to_obj(x)), np.float32: lambda x: elem(_to_obj(x)),
    np.shape: lambda a: a.shape if hasattr(a, 'shape') else _to_obj(a).shape, np.size: lambda a: _to_obj(a).size,
    np.ndim: lambda a: _to_obj(a).ndim, np.mean: lambda a, axis=None, **k: as_symnd(a).mean(axis=axis), np.count_nonzero: _count_nonzero,
    np.round: lambda a, decimals=0, **k: ew(lambda v: sym.lift(round(sym.lift(v), decimals)), a),
    np.nan_to_num: lambda a, *x, **k: a, np.linalg.multi_dot: lambda xs: _multi_dot(xs),
}


def _multi_dot(xs):
    r = xs[0]
    for x in xs[1:]:
        r = _matmul(r, x)
    return r


STRUCT = {
    np.concatenate, np.stack, np.hstack, np.vstack, np.append, np.reshape, np.ravel, np.transpose, np.squeeze, np.expand_dims, np.diag, np.tile,
    np.repeat, np.flip, np.roll, np.broadcast_to, np.atleast_1d, np.atleast_2d, np.insert, np.delete, np.split, np.take, np.column_stack,
    np.row_stack, np.block, np.moveaxis, np.swapaxes, np.broadcast_arrays, np.array_split, np.eye, np.fliplr, np.flipud, np.diagonal, np.kron,
    np.trace
}


def call_np(func, args, kwargs):
    f = NP.get(func)
    if f is not None:
        return f(*args, **kwargs)
    if func in STRUCT:
        return _structural(func)(*args, **kwargs)
    if isinstance(func, np.ufunc):
        out = kwargs.pop('out', None)
        return np_ufunc(func, '__call__', args, out, kwargs)
    return call_const(func, args, kwargs)


def call_const(func, args, kwargs):
    """a library function without a symbolic counterpart: called for real when its arguments are all constants"""
    try:
        a, k = _concrete(args), _concrete(kwargs)
    except Unsupported:
        raise Unsupported(f'library function {getattr(func, "__name__", func)} of symbolic values') from None
    return func(*a, **k)


def _concrete(x):
    if isinstance(x, E):
        if x.const is None:
            raise Unsupported('symbolic')
        return float(x.const)
    if isinstance(x, B):
        raise Unsupported('symbolic')
    if isinstance(x, SymTracer) or (isinstance(x, np.ndarray) and x.dtype == object):
        o = _to_obj(x)
        return np.array([_concrete(v) for v in o.reshape(-1)], dtype=float).reshape(o.shape)
    if type(x) in (list, tuple):
        return type(x)(_concrete(v) for v in x)
    if isinstance(x, dict):
        return {k: _concrete(v) for k, v in x.items()}
    return x


class ConstCallable:
    """scipy functions: constants only"""

    def __init__(self, fn):
        self.__wrapped__ = fn
        self.__name__ = getattr(fn, '__name__', 'fn')

    def __call__(self, *args, **kw):
        if has_sym(args) or has_sym(kw):
            return call_const(self.__wrapped__, args, kw)
        return self.__wrapped__(*args, **kw)

    def __getattr__(self, k):
        if k.startswith('__') and k.endswith('__'):
            raise AttributeError(k)
        return getattr(self.__wrapped__, k)


# -------------------------------------------------------------------------------------------- module shims
def to_jax(x):
    """SymNd/E/B (anywhere in a pytree) -> SymTracer"""
    if isinstance(x, SymNd) or isinstance(x, (E, B)):
        return jaxsym.tracer_of(x)
    if isinstance(x, np.ndarray) and x.dtype == object and has_sym(x):
        return jaxsym.tracer_of(as_symnd(x))
    if isinstance(x, list):
        return [to_jax(v) for v in x]
    if type(x) is tuple:
        return tuple(to_jax(v) for v in x)
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return type(x)(*[to_jax(v) for v in x])
    if isinstance(x, dict):
        return type(x)((k, to_jax(v)) for k, v in x.items())
    if isinstance(x, FloatMeta):
        return x._real
    return x


def jax_call(fn, args, kw):
    return fn(*[to_jax(a) for a in args], **{k: to_jax(v) for k, v in kw.items()})


class JaxCallable:
    """callable wrapper converting symbolic numpy values to tracers on the way in"""

    def __init__(self, fn):
        self.__wrapped__ = fn
        self.__name__ = getattr(fn, '__name__', 'fn')

    def __call__(self, *args, **kw):
        st = self.__dict__.get('_vf_static')
        if st is not None:
            _check_static(st, args, kw)
        return jax_call(self.__wrapped__, args, kw)

    def __getattr__(self, k):
        if k.startswith('__') and k.endswith('__'):
            raise AttributeError(k)
        return getattr(self.__wrapped__, k)

    def __get__(self, inst, owner=None):
        return self if inst is None else types.MethodType(self, inst)


def _mark(f, orig):
    f._vf_orig = orig
    return f


def _static_args(fun, k):
    """(positions, names) of the static arguments of a jitted function"""
    nums, names = k.get('static_argnums') or (), k.get('static_argnames') or ()
    nums = {nums} if isinstance(nums, int) else set(nums)
    names = {names} if isinstance(names, str) else set(names)
    try:
        ps = list(inspect.signature(fun).parameters)
    except (TypeError, ValueError):
        return nums, names
    nums |= {ps.index(n) for n in names if n in ps}
    names |= {ps[i] for i in nums if 0 <= i < len(ps)}
    return nums, names


def _check_static(st, args, kw):
    for i, v in list(enumerate(args)) + list(kw.items()):
        if (i in st[0] if isinstance(i, int) else i in st[1]) and (has_sym(v) or isinstance(v, (np.ndarray, jax.Array, dict, list))):
            raise ValueError(f'Non-hashable static arguments are not supported: {type(v).__name__}')


def transform(orig):
    """wrapper for jax.jit / grad / vmap / ... : the produced callables accept symbolic numpy values"""

    def t(fun=None, *a, **k):
        if fun is None:
            return lambda f: t(f, *a, **k)
        if isinstance(fun, JaxCallable):
            fun = fun.__wrapped__
        r = JaxCallable(orig(fun, *a, **k))
        if orig.__name__ == 'jit':
            r._vf_static = _static_args(fun, k)
        return r

    t.__name__ = getattr(orig, '__name__', 't')
    return _mark(t, orig)


TRANSFORMS = ('jit', 'grad', 'value_and_grad', 'jacfwd', 'jacrev', 'jacobian', 'hessian', 'vmap', 'checkpoint', 'jvp', 'vjp', 'linearize')


class Shim(types.ModuleType):
    """module proxy: attributes are wrapped so symbolic values are accepted"""

    def __init__(self, real, kind):
        super().__init__(real.__name__)
        object.__setattr__(self, '_real_mod', real)
        object.__setattr__(self, '_kind', kind)
        object.__setattr__(self, '_cache', {})

    def __getattr__(self, k):
        real = object.__getattribute__(self, '_real_mod')
        v = getattr(real, k)
        cache = object.__getattribute__(self, '_cache')
        if k in cache and cache[k][0] is v:
            return cache[k][1]
        w = wrap_global(v, object.__getattribute__(self, '_kind'))
        cache[k] = (v, w)
        return w


_SHIMS = {}


def shim_of(mod, kind):
    if mod not in _SHIMS:
        _SHIMS[mod] = Shim(mod, kind)
    return _SHIMS[mod]


class NpCallable:

    def __init__(self, fn):
        self.__wrapped__ = fn
        self.__name__ = getattr(fn, '__name__', 'fn')

    def __call__(self, *args, **kw):
        fn = self.__wrapped__
        args = tuple(a._real if isinstance(a, FloatMeta) else a for a in args)
        kw = {k: (v._real if isinstance(v, FloatMeta) else v) for k, v in kw.items()}
        if has_sym(args) or has_sym(kw):
            return call_np(fn, args, kw)
        return fn(*args, **kw)

    def __getattr__(self, k):
        if k.startswith('__') and k.endswith('__'):
            raise AttributeError(k)
        return getattr(self.__wrapped__, k)


class NpAlloc(NpCallable):
    """np.zeros / np.ones / np.empty: give arrays able to hold symbolic values"""

    def __call__(self, *args, **kw):
        args = tuple(a._real if isinstance(a, FloatMeta) else a for a in args)
        kw = {k: (v._real if isinstance(v, FloatMeta) else v) for k, v in kw.items()}
        if has_sym(args) or has_sym(kw):
            return call_np(self.__wrapped__, args, kw)
        r = self.__wrapped__(*args, **kw)
        if r.dtype.kind == 'f' and ALLOC_SYM:
            return wrap(jaxsym.lift_array(r))
        return r


ALLOC_SYM = True
ALLOC = ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like')


class MathCallable(NpCallable):
    MAP = {
        'sqrt': sym.sqrt, 'sin': sym.esin, 'cos': sym.ecos, 'tan': lambda a: sym.esin(a) / sym.ecos(a), 'fabs': sym.eabs,
        'acos': lambda a: sym.einv('acos', a), 'asin': lambda a: sym.einv('asin', a), 'atan': lambda a: sym.einv('atan', a),
        'isnan': lambda a: False, 'isinf': lambda a: False, 'isfinite': lambda a: True, 'hypot': lambda *a: sym.sqrt(sum(x * x for x in a)),
        'pow': lambda a, b: a**b, 'exp': lambda a: sym.generic_fn('exp', a), 'radians': lambda a: a * (math.pi / 180),
        'isclose': lambda a, b, rel_tol=1e-9, abs_tol=0.0: sym.eabs(sym.lift(a) - b) <= sym.emax(rel_tol * sym.emax(sym.eabs(a), sym.eabs(b)), abs_tol),
        'copysign': None, 'floor': jaxsym.EW['floor'], 'ceil': jaxsym.EW['ceil'],
    }

    def __call__(self, *args, **kw):
        if has_sym(args):
            f = self.MAP.get(self.__wrapped__.__name__)
            if f is None:
                raise Unsupported(f'math.{self.__wrapped__.__name__}')
            return f(*[elem(_to_obj(a)) if has_sym(a) else a for a in args], **kw)
        return self.__wrapped__(*args, **kw)


_WCACHE = {}


def wrap_global(v, kind=None):
    """the instrumented stand-in for a global of the code under test (or v itself)"""
    if isinstance(v, types.ModuleType):
        if isinstance(v, Shim):
            return v
        n = v.__name__
        if n == 'numpy' or n.startswith('numpy.linalg'):
            return shim_of(v, 'np')
        if n == 'math':
            return shim_of(v, 'math')
        if n == 'scipy' or n.startswith('scipy.linalg'):
            return shim_of(v, 'scipy')
        if n in ('jax.numpy', 'jax.lax', 'jax.numpy.linalg') or n.startswith('jax.scipy'):
            return shim_of(v, 'jax')
        if n == 'jax':
            return shim_of(v, 'jaxtop')
        return v
    if isinstance(v, (JaxCallable, NpCallable, ConstCallable)) or hasattr(v, '_vf_orig'):
        return v
    try:
        if v in _WCACHE:
            return _WCACHE[v]
    except TypeError:
        return v
    mod = getattr(v, '__module__', '') or ''
    if isinstance(v, type):
        return v
    w = v
    if isinstance(v, np.ufunc) or (callable(v) and mod.startswith('numpy')):
        w = NpAlloc(v) if getattr(v, '__name__', '') in ALLOC else NpCallable(v)
    elif callable(v) and mod.startswith('scipy.linalg'):
        w = ConstCallable(v)
    elif callable(v) and mod == 'math':
        w = MathCallable(v)
    elif callable(v) and mod.startswith('jax') and not isinstance(v, type):
        if getattr(v, '__name__', '') in TRANSFORMS and mod.startswith('jax._src.api'):
            w = transform(v)
        else:
            w = JaxCallable(v)
    elif type(v).__module__.startswith('jax') and callable(v) and not isinstance(v, (jax.Array, SymTracer)):
        w = JaxCallable(v)
    _WCACHE[v] = w
    return w


# ------------------------------------------------------------------------------------------- float/abs/...
class FloatMeta(type):

    def __instancecheck__(cls, x):
        return isinstance(x, cls._real) or isinstance(x, E)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)

    def __call__(cls, x=0.0):
        if has_sym(x):
            o = _to_obj(x)
            if o.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            v = o.reshape(-1)[0]
            return sym.b_to_e(v) if isinstance(v, B) else v
        return cls._real(x)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class FloatShim(metaclass=FloatMeta):
    _real = builtins.float
    fromhex = builtins.float.fromhex


def _emin(*a, **k):
    xs = a[0] if len(a) == 1 else a
    xs = list(xs)
    if has_sym(xs) and not k:
        r = xs[0]
        for v in xs[1:]:
            r = ew(jaxsym.EW['min'], r, v)
        return r
    return builtins.min(*a, **k)


def _emax(*a, **k):
    xs = a[0] if len(a) == 1 else a
    xs = list(xs)
    if has_sym(xs) and not k:
        r = xs[0]
        for v in xs[1:]:
            r = ew(jaxsym.EW['max'], r, v)
        return r
    return builtins.max(*a, **k)


BUILTINS = {'float': FloatShim, 'min': _emin, 'max': _emax}


def instrument_module(mod):
    g = mod.__dict__
    for k, v in list(g.items()):
        if k.startswith('__'):
            continue
        w = wrap_global(v)
        if w is not v:
            g[k] = w
    for k, v in BUILTINS.items():
        g.setdefault(k, v)
