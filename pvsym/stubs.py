"""Stand-ins for scipy entry points that receive symbolic arguments.  Each is a
contract: a fresh value constrained by the defining property of the result."""
import types
import numpy as np
import scipy
import scipy.special
import scipy.optimize
import scipy.integrate
from . import core, symnp
from .core import SV, issym, Unsupported, R, T


def _plain(x):
    return x.astype(float) if getattr(x, 'dtype', None) == object else x


def _erf(x):
    if symnp._hassym(x):
        return symnp.rewrap(symnp._map(core.erf, x), symnp._pandas_first([x]))
    return scipy.special.erf(_plain(x))


def _exp10(x):
    if symnp._hassym(x):
        return symnp.rewrap(symnp._map(core.exp10, x), symnp._pandas_first([x]))
    return scipy.special.exp10(_plain(x))


def _trapezoid(y, x=None, dx=1.0, axis=-1):
    if symnp._hassym(y) or symnp._hassym(x):
        return symnp.trapezoid(y, x, dx, axis)
    return scipy.integrate.trapezoid(y, x, dx, axis)


def _root(f, lo=None, hi=None, args=()):
    c = core.CTX
    v = c.fresh('root')
    x = SV(v)
    if lo is not None:
        c.add(core.T(lo) <= v)
    if hi is not None:
        c.add(v <= core.T(hi))
    r = f(x, *args)
    if isinstance(r, np.ndarray):
        r = r.reshape(-1)[0]
    if core.isspecial(r):
        from .core import Infeasible
        raise Infeasible
    c.add(core.T(r) == R(0))
    return x


HOOK = []


def _mixed(args):
    return tuple(args) if isinstance(args, (tuple, list)) else (args,)


def hooked(kind, real):
    """stand-in used while a harness observes what the code hands to a root or minimum finder"""
    def newton(func=None, x0=None, fprime=None, args=(), *a, **k):
        return HOOK[-1](kind, func, x0, fprime, _mixed(args), k)

    def bracket(f, a, b=None, args=(), *r, **k):
        return HOOK[-1](kind, f, (a, b), None, _mixed(args), k)

    def element(f, init, *r, args=(), **k):
        return HOOK[-1](kind, f, init, None, _mixed(args), k)
    return {'newton': newton, 'find_root': element, 'find_minimum': element}.get(kind, bracket)


def _brentq(f, a, b, args=(), **k):
    if HOOK:
        return hooked('brentq', None)(f, a, b, args, **k)
    if symnp._hassym(a) or symnp._hassym(b) or symnp._hassym(list(args)):
        return _root(f, a, b, args)
    return scipy.optimize.brentq(f, a, b, args=args, **k)


def _bisect(f, a, b, args=(), **k):
    if HOOK:
        return hooked('bisect', None)(f, a, b, args, **k)
    return _root(f, a, b, args)


def _newton(func=None, x0=None, fprime=None, args=(), **k):
    if HOOK:
        return hooked('newton', None)(func, x0, fprime, args, **k)
    if symnp._hassym(x0) or symnp._hassym(list(args)):
        if np.ndim(x0):
            arrs = [np.broadcast_to(symnp.toobj(a).view(np.ndarray), np.shape(x0)) if symnp._hassym(a) or isinstance(a, np.ndarray) else a for a in args]
            out = symnp._full(np.shape(x0), 0.0)
            for i in np.ndindex(np.shape(x0)):
                out[i] = _root(func, None, None, [a[i] if isinstance(a, np.ndarray) else a for a in arrs])
            return out
        return _root(func, None, None, args)
    return scipy.optimize.newton(func, x0, fprime, args=args, **k)


STUBS = {
    scipy.special.erf: _erf,
    scipy.special.exp10: _exp10,
    scipy.integrate.trapezoid: _trapezoid,
    scipy.optimize.brentq: _brentq,
    scipy.optimize.bisect: _bisect,
    scipy.optimize.newton: _newton,
}


def install(mods, hook):
    """route every root or minimum finder, however it is imported, to the hook; returns the undo list"""
    import scipy.optimize.elementwise as ew
    HOOK.append(hook)
    undo = []
    so = scipy.optimize
    orig = {n: getattr(so, n) for n in ('newton', 'brentq', 'brenth', 'bisect', 'ridder', 'toms748')}
    orig.update({n: getattr(ew, n) for n in ('find_root', 'find_minimum')})
    for n, f in orig.items():
        h = hooked(n, f)
        for mod in (ew if n.startswith('find') else so,):
            undo.append((mod, n, f))
            setattr(mod, n, h)
        for mod in mods.values():
            for k, v in list(vars(mod).items()):
                if v is f:
                    undo.append((mod, k, v))
                    setattr(mod, k, h)
    return undo


class ScipyShim:
    def __init__(self, mod):
        self.__dict__['_m'] = mod

    def __getattr__(self, n):
        v = getattr(self._m, n)
        try:
            s = STUBS.get(v)
        except TypeError:
            s = None
        if s is not None:
            return s
        if isinstance(v, types.ModuleType) and v.__name__ in ('scipy.special', 'scipy.optimize', 'scipy.integrate'):
            return ScipyShim(v)
        return v
