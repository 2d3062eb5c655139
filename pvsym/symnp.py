"""numpy stand-in: real numpy when every argument is concrete, elementwise
symbolic evaluation otherwise."""
import functools
import math
import types
import numpy as np
import pandas as pd
from . import core
from .core import SV, SBool, issym, Unsupported

_F = {
    'add': core.add, 'subtract': core.sub, 'multiply': core.mul,
    'divide': core.div, 'true_divide': core.div, 'floor_divide': core.floordiv,
    'remainder': core.mod, 'mod': core.mod, 'fmod': core.fmod,
    'power': core.power, 'float_power': core.power,
    'negative': core.neg, 'positive': lambda a: a,
    'absolute': core.absolute, 'abs': core.absolute, 'fabs': core.absolute,
    'sign': core.sign, 'sqrt': core.sqrt, 'cbrt': core.cbrt, 'square': core.square,
    'reciprocal': core.reciprocal,
    'exp': core.exp, 'expm1': core.expm1, 'exp2': core.exp2,
    'log': core.log, 'log1p': core.log1p, 'log10': core.log10, 'log2': core.log2,
    'sin': core.sin, 'cos': core.cos, 'tan': core.tan,
    'arcsin': core.arcsin, 'arccos': core.arccos, 'arctan': core.arctan,
    'asin': core.arcsin, 'acos': core.arccos, 'atan': core.arctan,
    'arctan2': core.arctan2, 'atan2': core.arctan2, 'hypot': core.hypot,
    'sinh': core.sinh, 'cosh': core.cosh, 'tanh': core.tanh,
    'radians': core.radians, 'deg2rad': core.radians,
    'degrees': core.degrees, 'rad2deg': core.degrees,
    'floor': core.floor, 'ceil': core.ceil, 'trunc': core.trunc, 'rint': core.rint,
    'maximum': core.maximum, 'minimum': core.minimum,
    'fmax': core.fmax, 'fmin': core.fmin,
    'less': core.lt, 'less_equal': core.le, 'greater': core.gt, 'greater_equal': core.ge,
    'equal': core.eq, 'not_equal': core.ne,
    'logical_and': core.land, 'logical_or': core.lor, 'logical_not': core.lnot,
    'logical_xor': core.lxor,
    'bitwise_and': core.land, 'bitwise_or': core.lor, 'invert': core.lnot,
    'bitwise_not': core.lnot, 'bitwise_xor': core.lxor,
    'isnan': lambda x: np.bool_(core.isnan(x)), 'isfinite': lambda x: np.bool_(core.isfinite(x)), 'isinf': lambda x: np.bool_(core.isinf(x)),
    'erf': core.erf,
}
_IDENT = {'add': np.float64(0.0), 'multiply': np.float64(1.0), 'logical_and': True,
          'logical_or': False, 'bitwise_and': True, 'bitwise_or': False}


class SArr(np.ndarray):
    """object array whose elements are SV/SBool/np.float64/..."""

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *a, **k):
        return handle_ufunc(ufunc, method, a, k)

    def __array_function__(self, func, types, args, kwargs):
        return handle_function(func, args, kwargs)

    def astype(self, dtype=None, *a, **k):
        if dtype in (bool, np.bool_, 'bool'):
            return _map(lambda x: x if isinstance(x, (SBool, bool, np.bool_)) else core.ne(x, 0), self)
        if _isint(dtype):
            return _map(core.trunc, self)
        if dtype in (str, 'str', object):
            return np.ndarray.astype(self, dtype)
        return sarr(np.array(self, dtype=object, copy=True))

    def copy(self, *a, **k):
        return np.ndarray.copy(self.view(np.ndarray)).view(SArr)

    def item(self, *a):
        return np.ndarray.item(self.view(np.ndarray), *a)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def __getitem__(self, key):
        key = _conckey(key)
        r = np.ndarray.__getitem__(self.view(np.ndarray), key)
        if isinstance(r, np.ndarray):
            return r.view(SArr)
        return r

    def __setitem__(self, key, val):
        base = self.view(np.ndarray)
        m = _maskkey(key)
        if m is not None:
            v = val
            if isinstance(v, (pd.Series, pd.DataFrame)):
                v = v.to_numpy()
            if np.ndim(v) == 0 and m.shape == base.shape:
                if isinstance(v, np.ndarray):
                    v = v.item()
                if is_num(v):
                    v = np.float64(v)
                it = np.ndindex(base.shape)
                for i in it:
                    c = m[i]
                    base[i] = core.where(c, v, base[i]) if issym(c) else (v if c else base[i])
                return
        key = _conckey(key)
        if isinstance(val, (pd.Series, pd.DataFrame)):
            val = val.to_numpy()
        if isinstance(val, np.ndarray):
            val = toobj(val).view(np.ndarray)
        elif is_num(val) and not isinstance(val, (bool, np.bool_)):
            val = np.float64(val) if not isinstance(val, (int, np.integer)) else val
        elif isinstance(val, (list, tuple)):
            val = toobj(val).view(np.ndarray)
        if isinstance(val, np.ndarray) and val.ndim == 0:
            val = val.item()
        if issym(val):
            # a bare SV is array-like to numpy: go through an object cell
            tgt = np.ndarray.__getitem__(base, key)
            if isinstance(tgt, np.ndarray):
                cell = np.empty((), dtype=object)
                cell[()] = val
                np.ndarray.__setitem__(base, key, np.broadcast_to(cell, tgt.shape))
                return
        np.ndarray.__setitem__(base, key, val)

    # reductions / methods
    def sum(self, axis=None, **k): return reduce_('add', self, axis, **_kd(k))
    def prod(self, axis=None, **k): return reduce_('multiply', self, axis, **_kd(k))
    def max(self, axis=None, **k): return reduce_('maximum', self, axis, **_kd(k))
    def min(self, axis=None, **k): return reduce_('minimum', self, axis, **_kd(k))
    def any(self, axis=None, **k): return reduce_('logical_or', self, axis, **_kd(k))
    def all(self, axis=None, **k): return reduce_('logical_and', self, axis, **_kd(k))
    def mean(self, axis=None, **k): return mean(self, axis, **_kd(k))
    def std(self, axis=None, ddof=0, **k): return std(self, axis, ddof=ddof, **_kd(k))
    def clip(self, min=None, max=None, **k): return clip(self, min, max)
    def argmax(self, axis=None, **k): return argmax(self, axis)
    def argmin(self, axis=None, **k): return argmax(-self, axis)
    def cumsum(self, axis=None, **k): return accumulate_('add', self, axis)
    def round(self, decimals=0, **k): return _map(lambda x: core.rint(x, decimals), self)
    def fill(self, v): self[...] = v
    def sort(self, axis=-1, **k): self[...] = sort(self, axis)
    def nonzero(self): return np.ndarray.nonzero(_concbool(self))
    def dot(self, o): return dot(self, o)
    def __matmul__(self, o): return dot(self, o)
    def __rmatmul__(self, o): return dot(o, self)

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).reshape(-1)[0])
        raise ValueError('truth value of an array is ambiguous')

    def __float__(self):
        if self.size == 1:
            return float(self.view(np.ndarray).reshape(-1)[0])
        raise TypeError('only size-1 arrays can be converted')


def _kd(k):
    k.pop('dtype', None)
    k.pop('out', None)
    k.pop('initial', None)
    if k.get('where') is True:
        k.pop('where')
    return {a: b for a, b in k.items() if b is not None and str(b) != '<no value>'}


def is_num(x):
    return core.is_num(x)


def _isint(dt):
    try:
        return np.issubdtype(np.dtype(dt), np.integer)
    except TypeError:
        return False


def toobj(x):
    """-> SArr (object) with np.float64 for plain floats"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, (pd.Series, pd.DataFrame, pd.Index)):
        x = x.to_numpy()
    if issym(x):
        r = np.empty((), dtype=object)
        r[()] = x
        return r.view(SArr)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(SArr)
        r = np.empty(x.shape, dtype=object)
        if x.ndim == 0:
            r[()] = x[()]
        else:
            f = r.reshape(-1)
            f[:] = list(x.reshape(-1))
            r = f.reshape(x.shape)
        return r.view(SArr)
    if isinstance(x, (list, tuple)):
        if any(_hassym(e) for e in x):
            es = [toobj(e) for e in x]
            shp = np.broadcast_shapes(*[e.shape for e in es]) if es else ()
            r = np.empty((len(es),) + shp, dtype=object)
            for i, e in enumerate(es):
                if shp:
                    r[i] = np.broadcast_to(e.view(np.ndarray), shp)
                else:
                    r[i] = e.view(np.ndarray)[()]
            return r.view(SArr)
        return toobj(np.array(x))
    r = np.empty((), dtype=object)
    r[()] = np.float64(x) if isinstance(x, float) else x
    return r.view(SArr)


def sarr(x):
    return toobj(x)


def _hassym(x):
    if issym(x) or isinstance(x, SArr):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(issym(e) for e in x.reshape(-1))
    if isinstance(x, (pd.Series, pd.Index)):
        return x.dtype == object and any(issym(e) for e in x)
    if isinstance(x, pd.DataFrame):
        return any(_hassym(x.iloc[:, i]) for i in range(x.shape[1]))
    if isinstance(x, (list, tuple)):
        return any(_hassym(e) for e in x)
    return False


def _isobj(x):
    """an object container left over from a symbolic computation"""
    return isinstance(x, (pd.Series, np.ndarray)) and x.dtype == object and all(
        isinstance(e, (float, np.floating, bool, np.bool_)) for e in x)


def _unwrap0(r):
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r.view(np.ndarray)[()] if not isinstance(r, SArr) else r.view(np.ndarray)[()]
    return r


def _map(f, *arrs, keep0=False):
    """elementwise over broadcast object arrays; pandas containers are rewrapped"""
    os = [toobj(a).view(np.ndarray) for a in arrs]
    if len(os) == 1:
        bs = os
    else:
        bs = np.broadcast_arrays(*os)
    out = np.empty(bs[0].shape, dtype=object)
    if out.ndim == 0:
        out[()] = f(*[b[()] for b in bs])
    else:
        for i in np.ndindex(out.shape):
            out[i] = f(*[b[i] for b in bs])
    r = out.view(SArr)
    if r.ndim == 0 and not keep0:
        v = out[()]
        return np.bool_(v) if isinstance(v, bool) else np.float64(v) if isinstance(v, (int, float)) else v
    return r


def _pandas_first(args):
    for a in args:
        if isinstance(a, pd.DataFrame):
            return a
    for a in args:
        if isinstance(a, pd.Series):
            return a
    return None


def _densify(r):
    """all-concrete boolean object arrays become real bool arrays"""
    if isinstance(r, SArr) and r.size and all(isinstance(e, (bool, np.bool_)) for e in r.view(np.ndarray).reshape(-1)):
        return np.array(r.view(np.ndarray).tolist(), dtype=bool).reshape(r.shape)
    return r


def rewrap(r, p):
    if p is None:
        return r
    rr = r.view(np.ndarray) if isinstance(r, np.ndarray) else r
    if isinstance(p, pd.Series):
        if np.ndim(rr) == 1 and len(rr) == len(p):
            return pd.Series(rr, index=p.index, name=p.name)
    elif np.shape(rr) == p.shape:
        return pd.DataFrame(rr, index=p.index, columns=p.columns)
    return r


def handle_ufunc(ufunc, method, args, kwargs):
    name = ufunc if isinstance(ufunc, str) else ufunc.__name__
    if method == 'reduce':
        kw = dict(kwargs)
        ax = kw.pop('axis', 0 if len(args) < 2 else args[1])
        return reduce_(name, args[0], ax, **_kd(kw))
    if method == 'accumulate':
        return accumulate_(name, args[0], kwargs.get('axis', 0))
    if method == 'outer':
        a, b = toobj(args[0]), toobj(args[1])
        return handle_ufunc(ufunc, '__call__', (a.reshape(a.shape + (1,) * b.ndim), b), {})
    if method != '__call__':
        raise Unsupported('ufunc method %s.%s' % (name, method))
    f = _F.get(name)
    if f is None:
        raise Unsupported('ufunc ' + name)
    kw = dict(kwargs)
    out = kw.pop('out', None)
    wh = kw.pop('where', True)
    kw.pop('dtype', None)
    kw.pop('casting', None)
    p = _pandas_first(args)
    if len(args) > ufunc_nin(ufunc, name):
        out = args[ufunc_nin(ufunc, name):]
        args = args[:ufunc_nin(ufunc, name)]
    if any(isinstance(a, str) for a in args):
        if name == 'equal':
            return False
        if name == 'not_equal':
            return True
    if any(a is None for a in args):
        if name in ('equal', 'not_equal'):
            return _map(lambda *x: (name == 'not_equal'), *[a if a is not None else 0 for a in args])
    if isinstance(out, tuple):
        out = out[0]
    if wh is not True:
        if out is None:
            raise Unsupported('ufunc where= without out=')
        whb = np.broadcast_to(toobj(wh).view(np.ndarray), np.broadcast_shapes(np.shape(wh), *[np.shape(a) for a in args]))
        av = [np.broadcast_to(toobj(a).view(np.ndarray), whb.shape) for a in args]
        ov = toobj(out)
        o2 = np.broadcast_to(ov.view(np.ndarray), whb.shape)
        res = np.empty(whb.shape, dtype=object)
        for i in np.ndindex(whb.shape):
            res[i] = f(*[v[i] for v in av]) if bool(whb[i]) else o2[i]
        r = res.view(SArr)
        if isinstance(out, SArr):
            out[...] = r
            return out
        if isinstance(out, pd.Series) and out.dtype == object:
            for i in range(len(out)):
                out.iloc[i] = res[i]
            return out
        if isinstance(out, pd.Series):
            raise Unsupported('out= a concrete series')
        if r.ndim == 0:
            return res[()]
        return r
    r = _map(f, *args)
    if out is not None:
        if isinstance(out, pd.Series):
            if out.dtype != object:
                raise Unsupported('out= a concrete series')
            for i in range(len(out)):
                out.iloc[i] = r[i]
            return out
        if isinstance(out, SArr):
            out[...] = r
            return out
        if isinstance(out, np.ndarray) and out.dtype == object:
            out.view(SArr)[...] = r
            return out
        return rewrap(r, p)      # in-place op on a concrete array: rebinds
    if name in ('isnan', 'isfinite', 'isinf'):
        r = _densify(r)
    return rewrap(r, p)


def ufunc_nin(ufunc, name):
    return ufunc.nin if not isinstance(ufunc, str) else getattr(np, name).nin


def reduce_(name, a, axis=None, keepdims=False, **k):
    f = _F[name]
    a = toobj(a)
    b = a.view(np.ndarray)
    if axis is None:
        b = b.reshape(-1)
        axis = 0
    elif isinstance(axis, tuple):
        if len(axis) == 1:
            axis = axis[0]
        else:
            raise Unsupported('multi-axis reduce')
    nd = a.ndim
    if b.ndim == 0:
        return b[()]
    b = np.moveaxis(b, axis, 0)
    n = b.shape[0]
    if n == 0:
        if name in _IDENT:
            v = _IDENT[name]
            return v if b.ndim == 1 else _map(lambda x: v, np.zeros(b.shape[1:]))
        raise ValueError('reduction of an empty array')
    if b.ndim == 1:
        r = b[0]
        if isinstance(r, (bool, np.bool_, SBool)) and name == 'add':
            r = core.add(0, r) if isinstance(r, SBool) else int(r)
        for i in range(1, n):
            r = f(r, b[i])
        return r if not keepdims else toobj([r]).reshape((1,) * nd)
    r = b[0].view(SArr)
    for i in range(1, n):
        r = _map(f, r, b[i].view(SArr), keep0=True)
    if keepdims:
        r = np.expand_dims(r.view(np.ndarray), axis).view(SArr)
    return r


def accumulate_(name, a, axis=None):
    f = _F[name]
    b = toobj(a).view(np.ndarray)
    if axis is None:
        b = b.reshape(-1)
        axis = 0
    b = np.moveaxis(b, axis, 0)
    out = np.empty(b.shape, dtype=object)
    if b.shape[0]:
        out[0] = b[0]
    for i in range(1, b.shape[0]):
        r = _map(f, toobj(out[i - 1]), toobj(b[i]))
        out[i] = r.view(np.ndarray) if isinstance(r, np.ndarray) else r
    return np.moveaxis(out, 0, axis).view(SArr)


def _concbool(m):
    m = toobj(m).view(np.ndarray)
    out = np.empty(m.shape, dtype=bool)
    for i in np.ndindex(m.shape):
        out[i] = bool(m[i])
    return out


def _maskkey(key):
    if isinstance(key, SBool):
        return toobj(key).view(np.ndarray)
    if isinstance(key, pd.Series):
        key = key.to_numpy()
    if isinstance(key, np.ndarray):
        if key.dtype == bool:
            return key
        if key.dtype == object and key.size and all(
                isinstance(e, (bool, np.bool_, SBool)) for e in key.reshape(-1)):
            return key.view(np.ndarray)
    return None


def _conckey(key):
    if isinstance(key, tuple):
        return tuple(_conckey(k) for k in key)
    if isinstance(key, SBool):
        return bool(key)
    if isinstance(key, SV):
        return int(key.__index__())
    m = _maskkey(key)
    if m is not None:
        return _concbool(m) if m.dtype == object else m
    if isinstance(key, np.ndarray) and key.dtype == object:
        out = np.empty(key.shape, dtype=int)
        for i in np.ndindex(key.shape):
            out[i] = int(key.view(np.ndarray)[i])
        return out
    return key


# ------------------------------------------------------------------ functions
OV = {}


def ov(*names):
    def deco(f):
        @functools.wraps(f)
        def g(*a, **k):
            out = k.pop('out', None)
            r = f(*a, **k)
            if out is None:
                return r
            if isinstance(out, tuple):
                out = out[0]
            if not isinstance(out, np.ndarray):
                raise Unsupported('out= of another kind')
            if out.dtype == object:
                out.view(SArr)[...] = r
                return out
            if _hassym(r):
                raise Unsupported('out= a concrete array')
            out[...] = r
            return out
        for n in names:
            OV[n] = g
        return g
    return deco


def _plain(x):
    return x


@ov('where')
def where(c, x=None, y=None):
    if x is None:
        return np.where(_concbool(c))
    return _map(core.where, c, x, y, keep0=False) if np.ndim(c) or np.ndim(x) or np.ndim(y) \
        else _npscal(core.where(_u(c), _u(x), _u(y)))


def _npscal(v):
    return np.bool_(v) if isinstance(v, bool) else np.float64(v) if isinstance(v, (int, float)) else v


def _u(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.view(np.ndarray)[()]
    return x


@ov('clip')
def clip(a, a_min=None, a_max=None, out=None, *, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    p = _pandas_first([a, lo, hi])

    def f(x, *b):
        b = list(b)
        if lo is not None:
            x = core.maximum(x, b.pop(0))
        if hi is not None:
            x = core.minimum(x, b.pop(0))
        return x
    bs = [b for b in (lo, hi) if b is not None]
    r = _map(f, a, *bs)
    return rewrap(r, p)


@ov('sum')
def _sum(a, axis=None, dtype=None, out=None, **k):
    return reduce_('add', a, axis, **_kd(k))


@ov('prod')
def _prod(a, axis=None, **k):
    return reduce_('multiply', a, axis, **_kd(k))


@ov('max', 'amax')
def _max(a, axis=None, **k):
    return reduce_('maximum', a, axis, **_kd(k))


@ov('min', 'amin')
def _min(a, axis=None, **k):
    return reduce_('minimum', a, axis, **_kd(k))


@ov('nanmax')
def _nanmax(a, axis=None, **k):
    return reduce_('fmax', a, axis, **_kd(k))


@ov('nanmin')
def _nanmin(a, axis=None, **k):
    return reduce_('fmin', a, axis, **_kd(k))


@ov('nansum')
def _nansum(a, axis=None, **k):
    return reduce_('add', _map(lambda x: np.float64(0.0) if core.isnan(x) else x, a, keep0=True), axis, **_kd(k))


@ov('any')
def _any(a, axis=None, **k):
    return reduce_('logical_or', _map(_tob, a, keep0=True), axis, **_kd(k))


@ov('all')
def _all(a, axis=None, **k):
    return reduce_('logical_and', _map(_tob, a, keep0=True), axis, **_kd(k))


def _tob(x):
    return x if isinstance(x, (SBool, bool, np.bool_)) else core.ne(x, 0)


@ov('mean', 'average')
def mean(a, axis=None, **k):
    a = toobj(a)
    n = a.size if axis is None else a.shape[axis]
    return reduce_('add', a, axis, **_kd(k)) / n


@ov('std')
def std(a, axis=None, dtype=None, out=None, ddof=0, **k):
    return OV['sqrt_'](var(a, axis, ddof=ddof, **_kd(k)))


OV['sqrt_'] = lambda x: _map(core.sqrt, x)


@ov('var')
def var(a, axis=None, dtype=None, out=None, ddof=0, **k):
    a = toobj(a)
    n = a.size if axis is None else a.shape[axis]
    m = mean(a, axis, keepdims=True) if axis is not None else mean(a)
    d = a - m
    return reduce_('add', d * d, axis, **_kd(k)) / (n - ddof)


@ov('cumsum')
def cumsum(a, axis=None, **k):
    return accumulate_('add', a, axis)


@ov('cumprod')
def cumprod(a, axis=None, **k):
    return accumulate_('multiply', a, axis)


@ov('diff')
def diff(a, n=1, axis=-1, **k):
    for _ in range(n):
        b = np.moveaxis(toobj(a).view(np.ndarray), axis, -1)
        a = _map(core.sub, b[..., 1:], b[..., :-1], keep0=True)
        a = np.moveaxis(a.view(np.ndarray), -1, axis).view(SArr)
    return a


@ov('argmax')
def argmax(a, axis=None, **k):
    a = toobj(a)
    if axis is None or a.ndim == 1:
        b = a.view(np.ndarray).reshape(-1)
        best = 0
        for i in range(1, len(b)):
            if core.isnan(b[best]):
                break
            if core.isnan(b[i]) or bool(core.lt(b[best], b[i])):
                best = i
        return best
    return np.apply_along_axis(lambda v: argmax(v), axis, a.view(np.ndarray))


@ov('argmin')
def argmin(a, axis=None, **k):
    return argmax(_map(core.neg, a, keep0=True), axis)


@ov('sort')
def sort(a, axis=-1, **k):
    if toobj(a).ndim != 1:
        b = np.moveaxis(toobj(a).view(np.ndarray), axis, 0)
        if len(b) == 2:
            r = np.empty(b.shape, dtype=object)
            for i in np.ndindex(b.shape[1:]):
                x, y = b[(0,) + i], b[(1,) + i]
                if core.isnan(x) or core.isnan(y):
                    raise Unsupported('sort of NaN')
                c = core.le(x, y)
                r[(0,) + i], r[(1,) + i] = (x, y) if bool(c) else (y, x)
            return np.moveaxis(r, 0, axis).view(SArr)
        raise Unsupported('sort of nd array')
    b = list(toobj(a).view(np.ndarray))
    out = []
    for x in b:
        i = 0
        while i < len(out) and bool(core.le(out[i], x)):
            i += 1
        out.insert(i, x)
    return toobj(out) if any(issym(e) for e in out) else np.array(out, dtype=float)


@ov('argsort')
def argsort(a, axis=-1, **k):
    b = list(toobj(a).view(np.ndarray))
    out = []
    for j, x in enumerate(b):
        i = 0
        while i < len(out) and bool(core.le(b[out[i]], x)):
            i += 1
        out.insert(i, j)
    return np.array(out)


@ov('dot')
def dot(a, b, out=None):
    a, b = toobj(a), toobj(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        return reduce_('add', a * b)
    if b.ndim == 1:
        return reduce_('add', a * b, axis=-1)
    av = a.view(np.ndarray)
    bv = b.view(np.ndarray)
    r = np.empty(av.shape[:-1] + bv.shape[1:], dtype=object)
    for i in np.ndindex(av.shape[:-1]):
        for j in np.ndindex(bv.shape[1:]):
            r[i + j] = reduce_('add', toobj(av[i]) * toobj(bv[(slice(None),) + j]))
    return r.view(SArr)


OV['matmul'] = dot


@ov('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if core.isspecial(x) or core.isspecial(y):
            return bool(np.isclose(x, y, equal_nan=equal_nan)) if not issym(x) and not issym(y) else False
        if not issym(x) and not issym(y):
            return bool(np.isclose(x, y, rtol, atol))
        return core.le(core.absolute(core.sub(x, y)),
                       core.add(atol, core.mul(rtol, core.absolute(y))))
    return _map(f, a, b)


@ov('allclose')
def allclose(a, b, **k):
    return reduce_('logical_and', isclose(a, b, **k))


@ov('array_equal')
def array_equal(a, b, **k):
    if np.shape(a) != np.shape(b):
        return False
    return reduce_('logical_and', _map(core.eq, a, b, keep0=True))


@ov('nan_to_num')
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if issym(v):
            return v
        return np.float64(np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf))
    return rewrap(_map(f, x), _pandas_first([x]))


@ov('polyval')
def polyval(p, x):
    if isinstance(x, (list, tuple)):
        x = toobj(x)
    y = 0.0 if np.ndim(x) == 0 else OVC['zeros_like'](x)
    pp = toobj(p).view(np.ndarray)
    for c in pp:
        y = y * x + c
    return y


@ov('concatenate')
def concatenate(arrays, axis=0, **k):
    return np.concatenate([toobj(a).view(np.ndarray) for a in arrays], axis=axis).view(SArr)


@ov('interp')
def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('np.interp with period')
    xs = toobj(xp).view(np.ndarray).reshape(-1)
    fs = toobj(fp).view(np.ndarray).reshape(-1)
    lv = fs[0] if left is None else left
    rv = fs[-1] if right is None else right

    def f(v):
        if core.isnan(v):
            return core.NAN
        if bool(core.lt(v, xs[0])):
            return lv
        if bool(core.gt(v, xs[-1])):
            return rv
        n = len(xs)
        # binary search by forking
        lo, hi = 0, n - 1
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if bool(core.le(xs[mid], v)):
                lo = mid
            else:
                hi = mid
        if n == 1:
            return fs[0]
        x0, x1, y0, y1 = xs[lo], xs[hi], fs[lo], fs[hi]
        if bool(core.eq(v, x1)):
            return y1
        return core.add(y0, core.mul(core.div(core.sub(y1, y0), core.sub(x1, x0)), core.sub(v, x0)))
    return _map(f, x)


@ov('digitize')
def digitize(x, bins, right=False):
    bs = list(np.asarray(bins))

    def f(v):
        if core.isnan(v):
            return len(bs)
        n = 0
        for i, b in enumerate(bs):
            c = core.lt(b, v) if right else core.le(b, v)
            if bool(c):
                n = i + 1
            else:
                break
        return n
    r = _map(f, x)
    return np.array(r.view(np.ndarray).tolist(), dtype=int) if isinstance(r, np.ndarray) else np.int64(int(r))


@ov('searchsorted')
def searchsorted(a, v, side='left', sorter=None):
    xs = list(toobj(a).view(np.ndarray))

    def f(q):
        n = 0
        for i, b in enumerate(xs):
            c = core.lt(b, q) if side == 'left' else core.le(b, q)
            if bool(c):
                n = i + 1
            else:
                break
        return n
    r = _map(f, v)
    return np.array(r.view(np.ndarray).tolist(), dtype=int) if isinstance(r, np.ndarray) else np.int64(int(r))


@ov('piecewise')
def piecewise(x, condlist, funclist, *args, **kw):
    def f(v, *cs):
        for c, g in zip(cs, funclist):
            if bool(c):
                return g(v, *args, **kw) if callable(g) else g
        if len(funclist) > len(cs):
            g = funclist[-1]
            return g(v, *args, **kw) if callable(g) else g
        return np.float64(0.0)
    return _map(f, x, *condlist)


@ov('select')
def select(condlist, choicelist, default=0):
    n = len(condlist)

    def f(*a):
        r = a[-1]
        for c, v in reversed(list(zip(a[:n], a[n:2 * n]))):
            r = core.where(c, v, r)
        return r
    return _map(f, *condlist, *choicelist, default)


@ov('unique', 'linalg.lstsq', 'linalg.eig', 'linalg.solve', 'polyfit', 'histogram', 'percentile', 'quantile', 'median', 'fft')
def _unsup(*a, **k):
    raise Unsupported('numpy function on symbolic values')


@ov('round', 'around')
def _round(a, decimals=0, out=None):
    return rewrap(_map(lambda x: core.rint(x, decimals), a), _pandas_first([a]))


@ov('zeros_like')
def zeros_like(a, dtype=None, **k):
    if _hasbool(dtype):
        return np.zeros(np.shape(a), dtype=bool).astype(object).view(SArr)
    return _full(np.shape(a), 0.0)


@ov('ones_like')
def ones_like(a, dtype=None, **k):
    return _full(np.shape(a), 1.0)


@ov('empty_like')
def empty_like(a, dtype=None, **k):
    return _full(np.shape(a), np.nan)


@ov('full_like')
def full_like(a, fill_value, dtype=None, **k):
    return _full(np.shape(a), fill_value)


def _hasbool(dt):
    return dt in (bool, np.bool_, 'bool')


def _full(shape, v):
    r = np.empty(shape, dtype=object)
    if issym(v):
        cell = np.empty((), dtype=object)
        cell[()] = v
        r[...] = cell
    elif isinstance(v, (bool, np.bool_)):
        r[...] = bool(v)
    else:
        vv = toobj(v)
        r[...] = vv.view(np.ndarray) if vv.ndim else (np.float64(v) if is_num(v) else v)
    return r.view(SArr)


@ov('gradient', 'convolve', 'correlate')
def _unsup2(*a, **k):
    raise Unsupported('numpy function on symbolic values')


@ov('trapezoid', 'trapz')
def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = np.moveaxis(toobj(y).view(np.ndarray), axis, -1)
    if x is None:
        d = dx
    else:
        xv = toobj(x)
        d = diff(xv)
    r = _map(core.add, y[..., 1:], y[..., :-1], keep0=True) * d / 2.0
    return reduce_('add', r, axis=-1)


@ov('iscomplex')
def iscomplex(x):
    return _map(lambda v: False, x)


@ov('isreal', 'isrealobj')
def isreal(x):
    return _map(lambda v: True, x)


@ov('unwrap')
def _unsup3(*a, **k):
    raise Unsupported('numpy function on symbolic values')


def handle_function(func, args, kwargs):
    """__array_function__ fall-through: run numpy's own implementation on
    object arrays"""
    name = func.__name__
    f = OV.get(name)
    if f is not None:
        return f(*args, **kwargs)
    impl = getattr(func, '_implementation', None)
    if impl is None:
        raise Unsupported('numpy function ' + name)

    def conv(x):
        if issym(x):
            return toobj(x).view(np.ndarray)
        if isinstance(x, SArr):
            return x.view(np.ndarray)
        if isinstance(x, (list, tuple)) and any(_hassym(e) for e in x):
            return type(x)(conv(e) for e in x)
        return x

    def back(r):
        if isinstance(r, np.ndarray) and r.dtype == object:
            return r.view(SArr) if r.ndim else r[()]
        if isinstance(r, (list, tuple)):
            return type(r)(back(e) for e in r)
        return r
    STRUCT = {'concatenate', 'stack', 'vstack', 'hstack', 'column_stack', 'append', 'tile',
              'repeat', 'reshape', 'ravel', 'transpose', 'moveaxis', 'swapaxes', 'expand_dims',
              'squeeze', 'broadcast_to', 'broadcast_arrays', 'atleast_1d', 'atleast_2d', 'atleast_3d',
              'roll', 'flip', 'fliplr', 'flipud', 'pad', 'array_split', 'split', 'ndim', 'shape', 'size',
              'take', 'delete', 'insert', 'meshgrid', 'copyto', 'result_type', 'rot90', 'diag', 'copy',
              'take_along_axis', 'apply_along_axis', 'may_share_memory', 'shares_memory', 'common_type'}
    if name in STRUCT:
        r = impl(*[conv(a) for a in args], **{k: conv(v) for k, v in kwargs.items()})
        return back(r)
    # generic: implementations written in terms of ufuncs work on SArr
    r = impl(*args, **kwargs)
    return back(r)


# --------------------------------------------------------- creation functions
OVC = {}


def ovc(*names):
    def deco(f):
        for n in names:
            OVC[n] = f
        return f
    return deco


def _floatdt(dtype):
    if dtype is float64:
        return True
    if dtype is None or dtype in (float, 'float', np.float64, 'float64', object, 'f8', np.float32):
        return True
    return False


@ovc('zeros')
def zeros(shape, dtype=None, *a, **k):
    if _floatdt(dtype):
        return _full(shape, 0.0)
    if _hasbool(dtype):
        return _full(shape, False)
    return np.zeros(shape, dtype, *a, **k)


@ovc('ones')
def ones(shape, dtype=None, *a, **k):
    if _floatdt(dtype):
        return _full(shape, 1.0)
    if _hasbool(dtype):
        return _full(shape, True)
    return np.ones(shape, dtype, *a, **k)


@ovc('empty')
def empty(shape, dtype=None, *a, **k):
    if _floatdt(dtype):
        return _full(shape, np.nan)
    if _hasbool(dtype):
        return _full(shape, False)
    return np.empty(shape, dtype, *a, **k)


@ovc('full')
def full(shape, fill_value, dtype=None, *a, **k):
    if _floatdt(dtype) or _hasbool(dtype):
        return _full(shape, fill_value)
    return np.full(shape, fill_value, dtype, *a, **k)


@ovc('zeros_like')
def c_zeros_like(a, dtype=None, **k):
    return zeros_like(a, dtype) if _mk(a, dtype) else np.zeros_like(a, dtype, **k)


@ovc('ones_like')
def c_ones_like(a, dtype=None, **k):
    return ones_like(a, dtype) if _mk(a, dtype) else np.ones_like(a, dtype, **k)


@ovc('empty_like')
def c_empty_like(a, dtype=None, **k):
    return empty_like(a, dtype) if _mk(a, dtype) else np.empty_like(a, dtype, **k)


@ovc('full_like')
def c_full_like(a, fill_value, dtype=None, **k):
    if _hassym(fill_value) or _mk(a, dtype):
        if not _hassym(a) and not _hassym(fill_value) and dtype is None and np.asarray(a).dtype.kind in 'iub':
            return np.full_like(a, fill_value, dtype, **k)
        return full_like(a, fill_value, dtype)
    dtype = float if dtype is not None and _floatdt(dtype) else dtype
    return np.full_like(a, fill_value, dtype, **k)


def _mk(a, dtype):
    if _hassym(a):
        return not (dtype is not None and _isint(dtype))
    if dtype is not None:
        return _floatdt(dtype) or _hasbool(dtype)
    return np.asarray(a).dtype.kind == 'f' and not isinstance(a, (pd.Series, pd.DataFrame))


@ovc('array', 'asarray', 'asanyarray', 'ascontiguousarray')
def asarray(a, dtype=None, *args, **k):
    if _hassym(a):
        if isinstance(a, (pd.Series, pd.DataFrame)):
            a = a.to_numpy()
        r = toobj(a)
        if k.get('copy', True):
            r = r.copy()
        if dtype is not None and not _floatdt(dtype):
            r = r.astype(dtype)
        nd = k.get('ndmin', 0)
        while r.ndim < nd:
            r = r.reshape((1,) + r.shape)
        return r
    r = np.array(a, dtype, *args, **{x: y for x, y in k.items() if x in ('copy', 'order', 'ndmin')})
    return r


@ovc('isscalar')
def isscalar(x):
    return issym(x) or np.isscalar(x)


@ovc('float64', 'float32', 'double')
def float64(x=0.0):
    if issym(x) or isinstance(x, SArr):
        return x
    return np.float64(x)


@ovc('linspace')
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not (_hassym(start) or _hassym(stop)):
        return np.linspace(start, stop, num, endpoint, retstep, dtype, axis)
    dv = (num - 1) if endpoint else num
    st, sp = toobj(start), toobj(stop)
    rows = [st + (sp - st) * (np.float64(i) / dv) for i in range(num)]
    if endpoint and num > 1:
        rows[-1] = sp + (st - st)
    r = toobj([_u(x) for x in rows])
    if retstep:
        return r, (sp - st) / dv
    return r


@ovc('arange')
def arange(*a, **k):
    if any(_hassym(x) for x in a):
        raise Unsupported('np.arange with symbolic bounds')
    return np.arange(*a, **k)


@ovc('broadcast_arrays')
def broadcast_arrays(*a, **k):
    if any(_hassym(x) for x in a):
        bs = np.broadcast_arrays(*[toobj(x).view(np.ndarray) for x in a])
        return tuple(np.array(b, dtype=object).view(SArr) for b in bs)
    return np.broadcast_arrays(*a, **k)


@ovc('broadcast_to')
def broadcast_to(a, shape, **k):
    if _hassym(a):
        return np.array(np.broadcast_to(toobj(a).view(np.ndarray), shape), dtype=object).view(SArr)
    return np.broadcast_to(a, shape)


@ovc('vectorize')
def vectorize(pyfunc=None, otypes=None, **kw):
    if pyfunc is None:
        return lambda f: vectorize(f, otypes=otypes, **kw)
    real = np.vectorize(pyfunc, otypes=otypes, **{k: v for k, v in kw.items()})

    def call(*args, **kwargs):
        if any(_hassym(a) for a in args) or any(_hassym(a) for a in kwargs.values()):
            ks = list(kwargs)
            n = len(args)
            return _map(lambda *x: pyfunc(*x[:n], **dict(zip(ks, x[n:]))), *args, *kwargs.values())
        return real(*args, **kwargs)
    functools.update_wrapper(call, pyfunc, updated=())
    return call


class _Poly:
    """numpy.polynomial.Polynomial on symbolic coefficients / arguments"""

    def __new__(cls, coef, *a, **k):
        if not _hassym(coef) and not issym(coef):
            p = np.polynomial.Polynomial(coef, *a, **k)
            self = object.__new__(cls)
            self.p, self.c = p, list(p.coef)
            return self
        self = object.__new__(cls)
        self.p, self.c = None, list(toobj(coef).view(np.ndarray))
        return self

    def __call__(self, x):
        if self.p is not None and not _hassym(x):
            return self.p(x)
        r = self.c[-1]
        for c in reversed(self.c[:-1]):
            r = r * x + c
        return r

    def _by(self, f):
        r = object.__new__(_Poly)
        r.p, r.c = None, [f(c) for c in self.c]
        return r

    def __mul__(self, k):
        if isinstance(k, (_Poly, np.polynomial.Polynomial)):
            raise Unsupported('product of polynomials')
        return self._by(lambda c: c * k)

    __rmul__ = __mul__

    def __truediv__(self, k):
        return self._by(lambda c: c / k)

    def __getattr__(self, n):
        if self.p is not None:
            return getattr(self.p, n)
        raise Unsupported('Polynomial.' + n)


class _PolyMod(types.SimpleNamespace):
    def __getattr__(self, n):
        return getattr(np.polynomial, n)


def _plainobj(x):
    return all(d == object for d in (x.dtypes if isinstance(x, pd.DataFrame) else [x.dtype])) and \
        all(isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, bool) for v in x.to_numpy().ravel())


class ShimUfunc:
    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *a, **k):
        if any(_hassym(x) or _isobj(x) for x in a) or _hassym(k.get('out')) or _hassym(k.get('where')):
            return handle_ufunc(self.uf, '__call__', a, k)
        # an object series on which the path left only plain numbers
        a = tuple(x.astype(float) if isinstance(x, (pd.Series, pd.DataFrame)) and _plainobj(x) else x for x in a)
        return self.uf(*a, **k)

    def reduce(self, a, *x, **k):
        if _hassym(a):
            return handle_ufunc(self.uf, 'reduce', (a,) + x, k)
        return self.uf.reduce(a, *x, **k)

    def accumulate(self, a, *x, **k):
        if _hassym(a):
            return handle_ufunc(self.uf, 'accumulate', (a,) + x, k)
        return self.uf.accumulate(a, *x, **k)

    def __getattr__(self, n):
        return getattr(self.uf, n)


NUMPI = False


class ShimMod:
    def __init__(self, mod, prefix=''):
        object.__setattr__(self, '_mod', mod)
        object.__setattr__(self, '_prefix', prefix)
        object.__setattr__(self, '_cache', {})

    def __getattr__(self, n):
        if n == 'pi':
            return self._make(n)
        c = self._cache
        if n in c:
            return c[n]
        v = self._make(n)
        c[n] = v
        return v

    def __dir__(self):
        return dir(self._mod)

    def _make(self, n):
        full = self._prefix + n
        if full == 'pi':
            return math.pi if NUMPI else PIV
        if full == 'polynomial':
            return _PolyMod(Polynomial=_Poly, polynomial=np.polynomial.polynomial)
        if full == 'ndarray':
            return np.ndarray
        if full in OVC:
            return OVC[full]
        real = getattr(self._mod, n)
        if isinstance(real, np.ufunc):
            return ShimUfunc(real)
        if isinstance(real, types.ModuleType):
            return ShimMod(real, full + '.')
        if full in OV:
            f = OV[full]

            def call(*a, **k):
                if any(_hassym(x) for x in a) or any(_hassym(x) for x in k.values()):
                    return f(*a, **k)
                return real(*a, **k)
            call.__name__ = n
            return call
        if callable(real) and not isinstance(real, type):
            def call(*a, **k):
                if any(_hassym(x) for x in a) or any(_hassym(x) for x in k.values()):
                    a = [toobj(x) if (issym(x) or (isinstance(x, (list, tuple)) and any(issym(e) for e in x))) else x for x in a]
                    a = [x.to_numpy().view(SArr) if isinstance(x, (pd.Series, pd.DataFrame)) and _hassym(x) else x for x in a]
                    return real(*a, **k)
                return real(*a, **k)
            call.__name__ = n
            return call
        return real


class _PIV(SV):
    """np.pi: symbolic in symbolic expressions, but a float for concrete use"""
    __slots__ = ()

    def __float__(self):
        return math.pi


PIV = _PIV(core.PI)
NP = ShimMod(np)
# concrete results of pi arithmetic are kept exact (rational multiples of PI)


# ------------------------------------------------- pandas masks with symbolic truth values
def _pdmask(key):
    if isinstance(key, (np.ndarray, pd.Series)) and key.dtype == object and len(key):
        vals = key.to_numpy() if isinstance(key, pd.Series) else key.view(np.ndarray)
        if any(isinstance(e, SBool) for e in vals.reshape(-1)) and \
                all(isinstance(e, (SBool, bool, np.bool_)) for e in vals.reshape(-1)):
            b = np.array([bool(e) for e in vals.reshape(-1)], dtype=bool).reshape(vals.shape)
            return pd.Series(b, index=key.index) if isinstance(key, pd.Series) else b
    return key


def _patch_mask(cls, name):
    orig = getattr(cls, name)

    @functools.wraps(orig)
    def f(self, key, *a):
        if isinstance(key, tuple):
            key = tuple(_pdmask(k) for k in key)
        else:
            key = _pdmask(key)
        return orig(self, key, *a)
    setattr(cls, name, f)


for _c in (pd.Series, pd.DataFrame, type(pd.Series([0]).loc), type(pd.Series([0]).iloc), pd.Index, pd.DatetimeIndex):
    for _n in ('__getitem__', '__setitem__'):
        if _n == '__getitem__' or not issubclass(_c, pd.Index):
            _patch_mask(_c, _n)
