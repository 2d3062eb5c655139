"""Vectorised numeric evaluation of z3 terms under the true function
semantics (used for witnesses, translator validation and as a cheap source of
feasible points -- never to discharge an obligation)."""
import math
import numpy as np
import z3
from scipy import special
from .core import frac


def _floor(x):
    return np.floor(x)


FN = {
    'exp': lambda x: np.exp(np.minimum(x, 700.0)),
    'log': np.log,
    'sqrt': lambda x: np.sqrt(np.where((x < 0) & (x > -1e-9), 0.0, x)),
    'cbrt': np.cbrt,
    'erf': special.erf,
    'sind': lambda x: np.sin(np.radians(x)),
    'cosd': lambda x: np.cos(np.radians(x)),
    'acosd': lambda x: np.degrees(np.arccos(np.clip(x, -1, 1))),
    'asind': lambda x: np.degrees(np.arcsin(np.clip(x, -1, 1))),
    'atand': lambda x: np.degrees(np.arctan(x)),
    'atan2d': lambda y, x: np.degrees(np.arctan2(y, x)),
    'hypot': lambda y, x: np.hypot(x, y),
    'floor': _floor,
    'lambertw': lambda x: np.real(special.lambertw(x)),
    'lambertwlog': lambda x: np.real(special.wrightomega(x)),
}


def ufnum(name, args, lo, hi):
    """a fixed concrete function standing for an uninterpreted one"""
    if name == 'asin_total':
        return np.degrees(np.arcsin(np.clip(args[0], -1, 1)))
    import zlib
    h = zlib.crc32(name.encode()) % 1000 / 1000.0
    v = 0.5 + h
    for i, a in enumerate(args):
        v = v * 1.37 + np.sin(a * (0.61 + 0.13 * i) + h) + 0.001 * a
    if lo is not None and hi is not None:
        v = lo + (hi - lo) * (0.5 + np.arctan(v) / math.pi)
    elif lo is not None:
        v = lo + np.exp(-np.abs(v)) + np.maximum(v, 0)
    return v


class NoNumeric(Exception):
    pass


def evalnum(t, env, defs, ufs=None, memo=None):
    """value of term t (numpy float/bool, scalar or array); env: name -> value"""
    if memo is None:
        memo = {}
    with np.errstate(all='ignore'):
        return _ev(t, env, defs, ufs or {}, memo)


def _ev(t, env, defs, ufs, memo):
    i = t.get_id()
    r = memo.get(i)
    if r is not None:
        return r[1]
    v = _ev1(t, env, defs, ufs, memo)
    memo[i] = (t, v)
    return v


def _ev1(t, env, defs, ufs, memo):
    if z3.is_rational_value(t):
        return np.float64(float(frac(t)))
    if z3.is_int_value(t):
        return np.float64(t.as_long())
    k = t.decl().kind()
    if k == z3.Z3_OP_TRUE:
        return np.bool_(True)
    if k == z3.Z3_OP_FALSE:
        return np.bool_(False)
    if k == z3.Z3_OP_UNINTERPRETED:
        n = t.decl().name()
        if n == 'PI':
            return np.float64(math.pi)
        if n in env:
            return env[n]
        if n in defs:
            fn, args, extra = defs[n]
            if fn in FN or fn == 'pow' or fn.startswith('uf:'):
                a = [_ev(x, env, defs, ufs, memo) for x in args]
                if fn == 'pow':
                    return np.where(a[0] > 0, np.power(np.abs(a[0]), float(extra)), np.nan)
                if fn in FN:
                    return FN[fn](*a)
                return ufnum(fn[3:], a, *extra)
        raise NoNumeric(n)
    c = [_ev(x, env, defs, ufs, memo) for x in t.children()]
    if k == z3.Z3_OP_ITE:
        return np.where(c[0], c[1], c[2])
    if k == z3.Z3_OP_ADD:
        r = c[0]
        for x in c[1:]:
            r = r + x
        return r
    if k == z3.Z3_OP_MUL:
        r = c[0]
        for x in c[1:]:
            r = r * x
        return r
    if k == z3.Z3_OP_SUB:
        r = c[0]
        for x in c[1:]:
            r = r - x
        return r
    if k == z3.Z3_OP_UMINUS:
        return -c[0]
    if k == z3.Z3_OP_DIV:
        return c[0] / c[1]
    if k == z3.Z3_OP_POWER:
        return c[0] ** c[1]
    if k == z3.Z3_OP_TO_REAL:
        return c[0]
    if k == z3.Z3_OP_LT:
        return c[0] < c[1]
    if k == z3.Z3_OP_LE:
        return c[0] <= c[1]
    if k == z3.Z3_OP_GT:
        return c[0] > c[1]
    if k == z3.Z3_OP_GE:
        return c[0] >= c[1]
    if k == z3.Z3_OP_EQ:
        return c[0] == c[1]
    if k == z3.Z3_OP_NOT:
        return np.logical_not(c[0])
    if k == z3.Z3_OP_AND:
        r = c[0]
        for x in c[1:]:
            r = np.logical_and(r, x)
        return r
    if k == z3.Z3_OP_OR:
        r = c[0]
        for x in c[1:]:
            r = np.logical_or(r, x)
        return r
    if k == z3.Z3_OP_IMPLIES:
        return np.logical_or(np.logical_not(c[0]), c[1])
    if k == z3.Z3_OP_XOR:
        return c[0] != c[1]
    raise NoNumeric(t.decl().name())


def modelfloat(m, v):
    return numval(m.eval(v, model_completion=True))


def numfrac(x):
    from fractions import Fraction
    if z3.is_rational_value(x):
        return frac(x)
    if z3.is_algebraic_value(x):
        return frac(x.approx(25))
    if z3.is_int_value(x):
        return Fraction(x.as_long())
    return None


def numval(x):
    f = numfrac(x)
    if f is None:
        return 0.0
    try:
        return float(f)
    except OverflowError:
        return math.inf if f > 0 else -math.inf
