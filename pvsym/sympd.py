"""pandas operations that have no object-dtype implementation, for series with symbolic elements"""
import functools
import numpy as np
import pandas as pd
from pandas.core.groupby import SeriesGroupBy
from pandas.core.window.rolling import Rolling
from . import core, symnp
from .core import SBool, SV, issym, isspecial


def _sym(s):
    return isinstance(s, pd.Series) and s.dtype == object and any(isinstance(e, (SBool, SV)) for e in s.to_numpy())


def _bools(s):
    return isinstance(s, pd.Series) and s.dtype == object and any(isinstance(e, SBool) for e in s.to_numpy())


def _nan(e):
    return isspecial(e) or isinstance(e, (float, np.floating)) and e != e or e is None


def _num(e):
    if isinstance(e, SBool):
        return e.num()
    if isinstance(e, (bool, np.bool_)):
        return float(e)
    return e


def patch(cls, name):
    def deco(f):
        orig = getattr(cls, name)

        @functools.wraps(orig)
        def g(self, *a, **k):
            r = f(orig, self, *a, **k)
            return orig(self, *a, **k) if r is NotImplemented else r
        setattr(cls, name, g)
        return f
    return deco


@patch(pd.Series, 'cumsum')
def _cumsum(orig, s, *a, **k):
    if _bools(s):
        # the number of events so far labels groups: decide each event
        return orig(pd.Series([bool(e) for e in s.to_numpy()], index=s.index, name=s.name))
    return NotImplemented


@patch(SeriesGroupBy, 'cumsum')
def _gcumsum(orig, g, *a, **k):
    s = g._selected_obj
    if not isinstance(s, pd.Series) or s.dtype != object:
        return NotImplemented
    v, out = s.to_numpy(), np.empty(len(s), dtype=object)
    out[:] = np.nan
    for idx in g.indices.values():
        t = 0.0
        for i in sorted(idx):
            if not _nan(v[i]):
                t = t + v[i]
                out[i] = t
    return pd.Series(out, index=s.index, name=s.name, dtype=object)


@patch(Rolling, 'sum')
def _rsum(orig, r, *a, **k):
    s = r._selected_obj
    if not isinstance(s, pd.Series) or s.dtype != object:
        return NotImplemented
    v = s.to_numpy()
    mp = r.min_periods if r.min_periods is not None else (r._win_freq_i8 is not None and 1 or r.window)
    lo, hi = r._get_window_indexer().get_window_bounds(num_values=len(v), min_periods=mp, center=r.center, closed=r.closed, step=r.step)
    out = np.empty(len(v), dtype=object)
    for i in range(len(v)):
        xs = [_num(e) for e in v[lo[i]:hi[i]] if not _nan(e)]
        out[i] = functools.reduce(lambda x, y: x + y, xs, 0.0) if len(xs) >= mp else np.nan
    return pd.Series(out, index=s.index, name=s.name, dtype=object)


def _pick(c, x, y):
    return core.where(c, x, y) if isinstance(c, SBool) else (x if c else y)


def _el(o, s, i):
    if isinstance(o, pd.Series):
        return o.reindex(s.index).to_numpy()[i]
    if isinstance(o, np.ndarray) and o.ndim:
        return o.reshape(-1)[i]
    return o


def _where(s, cond, other, flip):
    if callable(cond):
        cond = cond(s)
    if callable(other):
        other = other(s)
    if not isinstance(s, pd.Series) or not (_sym(s) or _bools(cond) or issym(other) or _sym(other)):
        return NotImplemented
    out = np.empty(len(s), dtype=object)
    v = s.to_numpy()
    for i in range(len(s)):
        c = _el(cond, s, i)
        x, y = v[i], _el(other, s, i)
        out[i] = _pick(c, *((y, x) if flip else (x, y)))
    return pd.Series(out, index=s.index, name=s.name, dtype=object)


@patch(pd.Series, 'where')
def _w(orig, s, cond, other=np.nan, *a, **k):
    return NotImplemented if k.get('inplace') or a else _where(s, cond, other, False)


@patch(pd.Series, 'mask')
def _m(orig, s, cond, other=np.nan, *a, **k):
    return NotImplemented if k.get('inplace') or a else _where(s, cond, other, True)


@patch(pd.Series, 'clip')
def _clip(orig, s, lower=None, upper=None, *a, **k):
    if a or k or not (_sym(s) or issym(lower) or issym(upper)):
        return NotImplemented
    out = np.empty(len(s), dtype=object)
    for i, e in enumerate(s.to_numpy()):
        for lim, up in ((lower, False), (upper, True)):
            b = _el(lim, s, i)
            if b is None or _nan(b) or _nan(e):
                continue
            e = core.where(e > b, b, e) if up else core.where(e < b, b, e)
        out[i] = e
    return pd.Series(out, index=s.index, name=s.name, dtype=object)


def _widen(cls):
    """a symbolic value may be stored in a numeric series: it becomes an object series"""
    orig = cls.__setitem__

    @functools.wraps(orig)
    def g(self, key, value):
        obj = self if isinstance(self, pd.Series) else getattr(self, 'obj', None)
        if isinstance(obj, pd.Series) and obj.dtype != object:
            if isinstance(value, (SV, SBool)) or getattr(value, 'dtype', None) == object:
                obj._update_inplace(obj.astype(object))
        return orig(self, key, value)
    cls.__setitem__ = g


for _c in (pd.Series, type(pd.Series([0]).loc), type(pd.Series([0]).iloc)):
    _widen(_c)


def _values():
    """the values of an object series reduce and compare like a symbolic array"""
    orig = pd.Series.values

    def get(self):
        r = orig.fget(self)
        return r.view(symnp.SArr) if isinstance(r, np.ndarray) and r.dtype == object and _sym(self) else r
    pd.Series.values = property(get)


_values()


class SymTime:
    """a time stamp plus a symbolic number of hours"""

    def __init__(self, base, hours):
        self.base, self.hours = base, hours

    def hours_after(self, t):
        return self.hours + (self.base - t) / pd.Timedelta('1h')

    def __repr__(self):
        return '%s + %r h' % (self.base, self.hours)


class SymDelta:
    def __init__(self, hours):
        self.hours = hours

    def __radd__(self, t):
        return SymTime(t, self.hours) if isinstance(t, pd.Timestamp) else NotImplemented

    __add__ = __radd__

    def __rsub__(self, t):
        return SymTime(t, -self.hours) if isinstance(t, pd.Timestamp) else NotImplemented


_to_timedelta = pd.to_timedelta
UNITS = {'D': 24.0, 'day': 24.0, 'days': 24.0, 'h': 1.0, 'hour': 1.0, 'hours': 1.0, 'm': 1 / 60, 'min': 1 / 60, 'minutes': 1 / 60, 's': 1 / 3600,
         'seconds': 1 / 3600}


def to_timedelta(arg, unit=None, **k):
    a = np.asarray(arg) if not isinstance(arg, SV) else arg
    if isinstance(a, SV):
        return SymDelta(a * UNITS[unit])
    if isinstance(a, np.ndarray) and a.dtype == object and any(isinstance(e, SV) for e in a.ravel()):
        out = np.empty(a.shape, dtype=object)
        for i, e in np.ndenumerate(a):
            out[i] = SymDelta(e * UNITS[unit])
        return out
    return _to_timedelta(arg, unit=unit, **k)


pd.to_timedelta = to_timedelta
