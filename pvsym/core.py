"""Symbolic execution core: symbolic reals (SV) and booleans (SBool) over z3.

The implementation under test is *run* (the real pvlib byte code) with SV/SBool
objects in place of floats.  A symbolic value is always a finite real; NaN and
+-inf only ever appear as concrete floats, because every operation that could
produce one forks the path on the condition that decides it.  Branching on a
symbolic boolean forks the path; paths are explored exhaustively by
re-execution (see engine.py).
"""
import math
from fractions import Fraction
import numpy as np
import z3


class Unsupported(Exception):
    """The encoding does not cover an operation the code performs."""


class PathLimit(Exception):
    """A path / depth bound was exceeded."""


class Infeasible(Exception):
    """The current path turned out to be infeasible; abandon it silently."""


CTX = None          # current path context
PI = z3.Real('PI')
NAN = np.float64('nan')
INF = np.float64('inf')

_numcache = {}


def R(x):
    """concrete finite number -> z3 numeral (the exact value of the float)"""
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, Fraction):
        key = x
    elif isinstance(x, (int, np.integer)):
        key = Fraction(int(x))
    else:
        key = Fraction(float(x))
    v = _numcache.get(key)
    if v is None:
        v = z3.RealVal(str(key)) if key.denominator != 1 else z3.RealVal(key.numerator)
        _numcache[key] = v
    return v


def frac(t):
    """z3 rational numeral -> Fraction"""
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


def is_num(x):
    return isinstance(x, (int, float, bool, np.number, np.bool_, Fraction)) and not isinstance(x, complex)


# ---------------------------------------------------------------- polynomials
# A polynomial is {monomial: Fraction}; a monomial is a sorted tuple of
# (atom_id, power); atoms are z3 terms (kept alive in ATOMS).
ATOMS = {}
_polymemo = {}
POLY_LIMIT = 8000


class PolyTooBig(Exception):
    pass


def _atom(t):
    i = t.get_id()
    ATOMS[i] = t
    return {((i, 1),): Fraction(1)}


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def m_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for i, p in n:
        q = d.get(i, 0) + p
        if q == 0:
            del d[i]
        else:
            d[i] = q
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > POLY_LIMIT * 50:
        raise PolyTooBig
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    if len(r) > POLY_LIMIT:
        raise PolyTooBig
    return r


def p_const(c):
    c = Fraction(c)
    return {(): c} if c != 0 else {}


PI_MONO_ID = PI.get_id()
ATOMS[PI_MONO_ID] = PI


def _is_pi_mono(p):
    return len(p) == 1 and all(i == PI_MONO_ID for i, _ in next(iter(p)))


def poly(t):
    """normal form of a z3 real term; division by non-constants is an atom
    except division by (a constant times) PI."""
    i = t.get_id()
    r = _polymemo.get(i)
    if r is not None:
        return r[1]
    k = t.decl().kind() if z3.is_app(t) else None
    if z3.is_rational_value(t):
        r = p_const(frac(t))
    elif k == z3.Z3_OP_ADD:
        r = {}
        for c in t.children():
            r = p_add(r, poly(c))
    elif k == z3.Z3_OP_SUB:
        cs = t.children()
        r = poly(cs[0])
        for c in cs[1:]:
            r = p_add(r, poly(c), -1)
    elif k == z3.Z3_OP_UMINUS:
        r = p_add({}, poly(t.arg(0)), -1)
    elif k == z3.Z3_OP_MUL:
        r = p_const(1)
        for c in t.children():
            r = p_mul(r, poly(c))
    elif k == z3.Z3_OP_DIV:
        d = poly(t.arg(1))
        if len(d) == 1 and (() in d or _is_pi_mono(d)):
            (m, c), = d.items()
            inv = {tuple((a, -p) for a, p in m): 1 / c}
            r = p_mul(poly(t.arg(0)), inv)
        else:
            r = _atom(t)
    elif k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and \
            frac(t.arg(1)).denominator == 1 and 0 <= frac(t.arg(1)) <= 8:
        r = p_const(1)
        for _ in range(int(frac(t.arg(1)))):
            r = p_mul(r, poly(t.arg(0)))
    else:
        r = _atom(t)
    _polymemo[i] = (t, r)
    return r


_ratmemo = {}


def _monic(p):
    """(constant, {atom id: exp} common monomial, monic primitive poly)"""
    m0 = None
    for m in p:
        d = dict(m)
        if m0 is None:
            m0 = {k: e for k, e in d.items() if e > 0}
        else:
            m0 = {k: min(e, d.get(k, 0)) for k, e in m0.items() if d.get(k, 0) > 0}
        if not m0:
            break
    m0 = m0 or {}
    if m0:
        inv = tuple(sorted((k, -e) for k, e in m0.items()))
        p = {m_mul(m, inv): c for m, c in p.items()}
    lead = p[min(p)]
    if lead != 1:
        p = {m: c / lead for m, c in p.items()}
    return lead, m0, p


def _fmul(f, key, p, e):
    q = f.get(key)
    f[key] = (p, (q[1] if q else 0) + e)
    if f[key][1] == 0:
        del f[key]


def _factors(n):
    """n = const * product of factors"""
    c, mono, p = _monic(n)
    f = {}
    for k, e in mono.items():
        v = {((k, 1),): Fraction(1)}
        _fmul(f, frozenset(v.items()), v, e)
    if len(p) > 1 or () not in p:
        _fmul(f, frozenset(p.items()), p, 1)
    return c, f


def _expand(f):
    r = p_const(1)
    for p, e in f.values():
        for _ in range(e):
            r = p_mul(r, p)
    return r


def ratf(t):
    """(numerator polynomial, {factor: (poly, exponent)} denominator)"""
    i = t.get_id()
    r = _ratmemo.get(i)
    if r is not None:
        return r[1]
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        cs = t.children()
        n, d = ratf(cs[0])
        sg = 1 if k == z3.Z3_OP_ADD else -1
        for c in cs[1:]:
            n2, d2 = ratf(c)
            if d2.keys() == d.keys() and all(d2[x][1] == d[x][1] for x in d):
                n = p_add(n, n2, sg)
                continue
            l = dict(d)
            for x, (p, e) in d2.items():
                if x not in l or l[x][1] < e:
                    l[x] = (p, e)
            a = {x: (p, e - (d[x][1] if x in d else 0)) for x, (p, e) in l.items()}
            b = {x: (p, e - (d2[x][1] if x in d2 else 0)) for x, (p, e) in l.items()}
            n = p_add(p_mul(n, _expand(a)), p_mul(n2, _expand(b)), sg)
            d = l
        if not n:
            d = {}
    elif k == z3.Z3_OP_UMINUS:
        n, d = ratf(t.arg(0))
        n = p_add({}, n, -1)
    elif k == z3.Z3_OP_MUL or k == z3.Z3_OP_DIV:
        n, d = p_const(1), {}
        for j, c in enumerate(t.children()):
            n2, d2 = ratf(c)
            if j and k == z3.Z3_OP_DIV:
                if not n2:
                    raise PolyTooBig
                n2, d2 = _expand(d2), n2
                c0, d2 = _factors(d2)
                if c0 != 1:
                    n2 = {m: v / c0 for m, v in n2.items()}
            n, n2, dd = _cancel(n, d2), _cancel(n2, d), None
            (n, d2), (n2, d) = n, n2
            n = p_mul(n, n2)
            dd = dict(d)
            for x, (p, e) in d2.items():
                _fmul(dd, x, p, e)
            d = dd
            if not n:
                d = {}
    else:
        n, d = poly(t), {}
    _ratmemo[i] = (t, (n, d))
    return n, d


def _cancel(n, d):
    """cancel a numerator that is itself one of the denominator's factors"""
    if not n or not d or len(n) == 1 and () in n:
        return n, d
    c, f = _factors(n)
    hit = [x for x in f if x in d]
    if not hit:
        return n, d
    d = dict(d)
    for x in hit:
        e = min(f[x][1], d[x][1])
        _fmul(d, x, d[x][0], -e)
        _fmul(f, x, f[x][0], -e)
    n = _expand(f)
    return {m: v * c for m, v in n.items()}, d


def rat(t):
    """(num, den) polynomials of a term, with divisions cleared."""
    n, d = ratf(t)
    return n, _expand(d)


def p_term(p):
    """polynomial -> z3 term"""
    if not p:
        return R(0)
    out = []
    for m, c in sorted(p.items(), key=lambda kv: kv[0]):
        fs = [R(c)] if c != 1 or not m else []
        den = []
        for i, e in m:
            (fs if e > 0 else den).extend([ATOMS[i]] * abs(e))
        if not fs:
            fs = [R(1)]
        x = z3.Product(*fs) if len(fs) > 1 else fs[0]
        for q in den:
            x = x / q
        out.append(x)
    return z3.Sum(*out) if len(out) > 1 else out[0]


def mkadd(a, b):
    if z3.is_rational_value(a):
        if z3.is_rational_value(b):
            return R(frac(a) + frac(b))
        if a.numerator_as_long() == 0:
            return b
    elif z3.is_rational_value(b) and b.numerator_as_long() == 0:
        return a
    return a + b


def mkneg(a):
    if z3.is_rational_value(a):
        return R(-frac(a))
    if a.decl().kind() == z3.Z3_OP_UMINUS:
        return a.arg(0)
    return -a


def mksub(a, b):
    if z3.is_rational_value(b):
        if z3.is_rational_value(a):
            return R(frac(a) - frac(b))
        if b.numerator_as_long() == 0:
            return a
    elif z3.is_rational_value(a) and a.numerator_as_long() == 0:
        return mkneg(b)
    if a.eq(b):
        return R(0)
    return a - b


def mkmul(a, b):
    if z3.is_rational_value(b):
        a, b = b, a
    if z3.is_rational_value(a):
        if z3.is_rational_value(b):
            return R(frac(a) * frac(b))
        f = frac(a)
        if f == 0:
            return R(0)
        if f == 1:
            return b
        if b.decl().kind() == z3.Z3_OP_MUL and z3.is_rational_value(b.arg(0)):
            g = f * frac(b.arg(0))
            cs = b.children()[1:]
            rest = cs[0] if len(cs) == 1 else z3.Product(*cs)
            return rest if g == 1 else R(g) * rest
    return a * b


def mkdiv(a, b):
    if z3.is_rational_value(b):
        return mkmul(R(1 / frac(b)), a)
    if a.eq(b):
        return R(1)
    if z3.is_rational_value(a) and a.numerator_as_long() == 0:
        return R(0)
    fa, fb = _mfactors(a), _mfactors(b)
    hit = False
    for y in list(fb):
        for j, x in enumerate(fa):
            if x.eq(y) and not z3.is_rational_value(x):
                del fa[j]
                fb.remove(y)
                hit = True
                break
    if hit:
        a = _mprod(fa)
        if not fb:
            return a
        return mkdiv(a, _mprod(fb))
    return a / b


def _mfactors(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
        return [y for c in t.children() for y in _mfactors(c)]
    return [t]


def _mprod(fs):
    r = R(1)
    for f in fs:
        r = mkmul(r, f)
    return r


# ------------------------------------------------------------------- booleans
class SBool:
    __slots__ = ('b',)
    __array_priority__ = 1e6

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return CTX.decide(self.b)

    def any(self, *a, **k):
        return self
    all = item = squeeze = any
    ndim, shape, size = 0, (), 1

    def _o(self, o):
        if isinstance(o, SBool):
            return o.b
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        if isinstance(o, (int, np.integer)) and o in (0, 1):
            return z3.BoolVal(bool(o))
        return None

    def _bin(self, o, f, ab=None):
        x = self._o(o)
        if x is None:
            return NotImplemented
        return mkbool(f(self.b, x))

    def __and__(self, o):
        return self._bin(o, z3.And)
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, z3.Or)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, z3.Xor)
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.b))

    def __eq__(self, o):
        return self._bin(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._bin(o, z3.Xor)

    __hash__ = object.__hash__

    def num(self):
        return SV(z3.If(self.b, R(1), R(0)))

    def __add__(self, o):
        return self.num() + (o.num() if isinstance(o, SBool) else o)
    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - (o.num() if isinstance(o, SBool) else o)

    def __rsub__(self, o):
        return o - self.num()

    def __mul__(self, o):
        if isinstance(o, SBool):
            return self & o
        if isinstance(o, (SV,)) or is_num(o):
            return o if bool(self) else (o * 0)
        return NotImplemented
    __rmul__ = __mul__

    def __repr__(self):
        return 'SBool(%s)' % str(self.b)[:60]

    def __float__(self):
        return float(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __array_ufunc__(self, ufunc, method, *a, **k):
        from . import symnp
        return symnp.handle_ufunc(ufunc, method, a, k)

    def __array_function__(self, func, types, args, kwargs):
        from . import symnp
        return symnp.handle_function(func, args, kwargs)


def mkbool(b):
    """z3 Bool -> SBool or python bool if syntactically decided"""
    if isinstance(b, bool):
        return b
    b = simp_bool(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return SBool(b)


def simp_bool(b):
    k = b.decl().kind()
    if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
        return b
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
        x, y = b.arg(0), b.arg(1)
        if z3.is_rational_value(x) and z3.is_rational_value(y):
            p, q = frac(x), frac(y)
            v = {z3.Z3_OP_LE: p <= q, z3.Z3_OP_GE: p >= q, z3.Z3_OP_LT: p < q,
                 z3.Z3_OP_GT: p > q, z3.Z3_OP_EQ: p == q}[k]
            return z3.BoolVal(v)
        if x.eq(y):
            return z3.BoolVal(k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ))
        return b
    if k == z3.Z3_OP_NOT:
        c = simp_bool(b.arg(0))
        if z3.is_true(c):
            return z3.BoolVal(False)
        if z3.is_false(c):
            return z3.BoolVal(True)
        return b
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        absorbing = k == z3.Z3_OP_OR
        keep = []
        for c in b.children():
            c = simp_bool(c)
            if z3.is_true(c):
                if absorbing:
                    return c
                continue
            if z3.is_false(c):
                if not absorbing:
                    return c
                continue
            keep.append(c)
        if not keep:
            return z3.BoolVal(not absorbing)
        if len(keep) == 1:
            return keep[0]
        return z3.Or(*keep) if absorbing else z3.And(*keep)
    if k == z3.Z3_OP_XOR:
        return z3.simplify(b)
    return b


# ---------------------------------------------------------------------- reals
class SV:
    __slots__ = ('t',)
    __array_priority__ = 1e6

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        s = str(self.t)
        return 'SV(%s)' % (s if len(s) < 80 else s[:77] + '...')

    __hash__ = object.__hash__

    # -- conversions
    def __float__(self):
        if z3.is_rational_value(self.t):
            return float(frac(self.t))
        raise Unsupported('float() of a symbolic value %r' % self)

    def __int__(self):
        return CTX.enum_int(trunc(self))

    def __index__(self):
        return CTX.enum_int(self)

    def __bool__(self):
        return CTX.decide(self.t != R(0))

    def __round__(self, n=0):
        return rint(self, n or 0)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    # numpy-scalar-like attributes
    shape = ()
    ndim = 0
    size = 1

    @property
    def real(self):
        return self

    def astype(self, *a, **k):
        return self

    def reshape(self, *a):
        from . import symnp
        return symnp.sarr(self).reshape(*a)

    def clip(self, lo=None, hi=None, **k):
        from . import symnp
        return symnp.clip(self, lo, hi)

    def __add__(self, o): return _disp(add, self, o)
    def __radd__(self, o): return _disp(add, o, self)
    def __sub__(self, o): return _disp(sub, self, o)
    def __rsub__(self, o): return _disp(sub, o, self)
    def __mul__(self, o): return _disp(mul, self, o)
    def __rmul__(self, o): return _disp(mul, o, self)
    def __truediv__(self, o): return _disp(div, self, o)
    def __rtruediv__(self, o): return _disp(div, o, self)
    def __floordiv__(self, o): return _disp(floordiv, self, o)
    def __rfloordiv__(self, o): return _disp(floordiv, o, self)
    def __mod__(self, o): return _disp(mod, self, o)
    def __rmod__(self, o): return _disp(mod, o, self)
    def __pow__(self, o): return _disp(power, self, o)
    def __rpow__(self, o): return _disp(power, o, self)
    def __divmod__(self, o): return floordiv(self, o), mod(self, o)
    def __neg__(self): return SV(mkneg(self.t))
    def __pos__(self): return self
    def __abs__(self): return absolute(self)
    def __lt__(self, o): return _disp(lt, self, o)
    def __le__(self, o): return _disp(le, self, o)
    def __gt__(self, o): return _disp(lt, o, self)
    def __ge__(self, o): return _disp(le, o, self)
    def __eq__(self, o): return _disp(eq, self, o)
    def __ne__(self, o): return _disp(ne, self, o)
    def __floor__(self): return floor(self)
    def __ceil__(self): return ceil(self)
    def __trunc__(self): return trunc(self)

    def __array_ufunc__(self, ufunc, method, *a, **k):
        from . import symnp
        return symnp.handle_ufunc(ufunc, method, a, k)

    def __array_function__(self, func, types, args, kwargs):
        from . import symnp
        return symnp.handle_function(func, args, kwargs)

    # numpy calls these on object arrays
    def exp(self): return exp(self)
    def log(self): return log(self)
    def sqrt(self): return sqrt(self)
    def sin(self): return sin(self)
    def cos(self): return cos(self)
    def tan(self): return tan(self)
    def floor(self): return floor(self)
    def ceil(self): return ceil(self)
    def conjugate(self): return self


def _disp(f, a, b):
    if isinstance(a, (SV, SBool)) or is_num(a):
        if isinstance(b, (SV, SBool)) or is_num(b):
            return f(a, b)
    if f in (eq, ne) and (a is None or b is None or isinstance(a, str) or isinstance(b, str)):
        return f is ne
    return NotImplemented


def isspecial(x):
    """concrete NaN/inf?"""
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def T(x):
    """finite SV/number -> z3 term"""
    if isinstance(x, SV):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.b, R(1), R(0))
    return R(x)


def W(t):
    """z3 term -> SV, or np.float64 when the term is a float-exact numeral"""
    return SV(t)


def issym(x):
    return isinstance(x, (SV, SBool))


def _f(x):
    return np.float64(x) if not isinstance(x, (np.floating,)) else x


def _concrete(a, b, f):
    with np.errstate(all='ignore'):
        return f(np.float64(a), np.float64(b))


def add(a, b):
    if not issym(a) and not issym(b):
        return _concrete(a, b, np.add)
    if isspecial(a):
        return _f(a)
    if isspecial(b):
        return _f(b)
    return SV(mkadd(T(a), T(b)))


def neg(a):
    if not issym(a):
        return np.float64(-a)
    return SV(mkneg(T(a)))


def sub(a, b):
    if not issym(a) and not issym(b):
        return _concrete(a, b, np.subtract)
    if isspecial(a):
        return _f(a)
    if isspecial(b):
        return _f(-b)
    return SV(mksub(T(a), T(b)))


def sign_of(a):
    """fork on the sign of a: -1, 0, 1"""
    if not issym(a):
        return int(a > 0) - int(a < 0)
    t = T(a)
    if CTX.decide(t > R(0)):
        return 1
    if CTX.decide(t < R(0)):
        return -1
    return 0


def mul(a, b):
    if not issym(a) and not issym(b):
        return _concrete(a, b, np.multiply)
    for x, y in ((a, b), (b, a)):
        if isspecial(x):
            if math.isnan(x):
                return NAN
            s = sign_of(y)
            return NAN if s == 0 else np.float64(s * x)
    if isinstance(a, SBool) or isinstance(b, SBool):
        if isinstance(a, SBool):
            return b if bool(a) else mul(b, 0)
        return a if bool(b) else mul(a, 0)
    return SV(mkmul(T(a), T(b)))


def div(a, b):
    if not issym(a) and not issym(b):
        return _concrete(a, b, np.divide)
    if isspecial(b):
        return NAN if math.isnan(b) else np.float64(0.0)
    if isspecial(a):
        if math.isnan(a):
            return NAN
        s = sign_of(b)
        return np.float64((s or 1) * a)
    tb = T(b)
    if z3.is_rational_value(tb):
        zero = frac(tb) == 0
    else:
        zero = CTX.decide(tb == R(0))
    if zero:
        s = sign_of(a)
        return NAN if s == 0 else np.float64(s * INF)
    return SV(mkdiv(T(a), tb))


def lt(a, b):
    if not issym(a) and not issym(b):
        return bool(a < b)
    if isspecial(a):
        return bool(a < 0) and not math.isnan(a)
    if isspecial(b):
        return bool(b > 0) and not math.isnan(b)
    c = _cross(a, b)
    if c is not None:
        return mkbool(c < 0)
    a, b = _uncos(a, b)
    return mkbool(T(a) < T(b))


def le(a, b):
    if not issym(a) and not issym(b):
        return bool(a <= b)
    if isspecial(a):
        return bool(a < 0) and not math.isnan(a)
    if isspecial(b):
        return bool(b > 0) and not math.isnan(b)
    c = _cross(a, b)
    if c is not None:
        return mkbool(c <= 0)
    a, b = _uncos(a, b)
    return mkbool(T(a) <= T(b))


COS = {0: Fraction(1), 60: Fraction(1, 2), 90: Fraction(0), 120: Fraction(-1, 2), 180: Fraction(-1)}


def _uncos(a, b):
    """an inverse cosine compares with a special angle as the cosines do, the other way round"""
    if CTX.asinarg:
        for p, q, flip in ((a, b, False), (b, a, True)):
            x = CTX.asinarg.get(p.t.get_id()) if isinstance(p, SV) else None
            if x is not None and not issym(q) and -90 < float(q) < 90:
                s = CTX._constsc(Fraction(float(q)))[0]
                s = SV(R(s) if isinstance(s, (int, Fraction)) else s)
                return (s, SV(x[0])) if flip else (SV(x[0]), s)
    if CTX.acosarg:
        for p, q, flip in ((a, b, False), (b, a, True)):
            x = CTX.acosarg.get(p.t.get_id()) if isinstance(p, SV) else None
            if x is not None and not issym(q) and float(q) in COS:
                c = R(COS[float(q)])
                return (SV(x[0]), SV(c)) if flip else (SV(c), SV(x[0]))
    return a, b


def _cross(a, b):
    """two-argument arctangents of points above the x axis compare as their cross product"""
    if not CTX.at2 or not isinstance(a, SV) or not isinstance(b, SV):
        return None
    p, q = CTX.at2.get(a.t.get_id()), CTX.at2.get(b.t.get_id())
    if p is None or q is None or not CTX.positive(p[0]) or not CTX.positive(q[0]):
        return None
    return mksub(mkmul(p[0], q[1]), mkmul(p[1], q[0]))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if not issym(a) and not issym(b):
        return bool(a == b)
    if isspecial(a) or isspecial(b):
        return False
    if isinstance(a, SBool) or isinstance(b, SBool):
        return a == b if isinstance(a, SBool) else b == a
    return mkbool(T(a) == T(b))


def ne(a, b):
    r = eq(a, b)
    return (not r) if isinstance(r, bool) else ~r


def lnot(a):
    return ~a if isinstance(a, SBool) else (not bool(a))


def land(a, b):
    if isinstance(a, (SV,)):
        a = a != 0
    if isinstance(b, (SV,)):
        b = b != 0
    if isinstance(a, SBool) or isinstance(b, SBool):
        return (a & b) if isinstance(a, SBool) else (b & bool(a))
    return bool(a) and bool(b)


def lor(a, b):
    if isinstance(a, (SV,)):
        a = a != 0
    if isinstance(b, (SV,)):
        b = b != 0
    if isinstance(a, SBool) or isinstance(b, SBool):
        return (a | b) if isinstance(a, SBool) else (b | bool(a))
    return bool(a) or bool(b)


def lxor(a, b):
    if isinstance(a, SBool) or isinstance(b, SBool):
        return (a ^ b) if isinstance(a, SBool) else (b ^ bool(a))
    return bool(a) != bool(b)


def isnan(a):
    return (not issym(a)) and a is not None and isinstance(a, (float, np.floating)) and math.isnan(a)


def isfinite(a):
    return issym(a) or math.isfinite(a)


def isinf(a):
    return (not issym(a)) and math.isinf(a)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, SV) and isinstance(b, SV):
        return a.t.eq(b.t)
    if not issym(a) and not issym(b):
        try:
            return bool(a == b) or (isnan(a) and isnan(b))
        except Exception:
            return False
    return False


def where(c, a, b):
    """elementwise select"""
    if isinstance(c, SV):
        c = c != 0
    if not isinstance(c, SBool):
        return a if c else b
    if same(a, b):
        return a
    if isinstance(a, SBool) or isinstance(b, SBool) or \
            (isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_))):
        if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
            ta = a.b if isinstance(a, SBool) else z3.BoolVal(bool(a))
            tb = b.b if isinstance(b, SBool) else z3.BoolVal(bool(b))
            return mkbool(z3.Or(z3.And(c.b, ta), z3.And(z3.Not(c.b), tb)))
    if CTX.merge and not isspecial(a) and not isspecial(b) and \
            (issym(a) or is_num(a)) and (issym(b) or is_num(b)):
        v = CTX.known(c.b)
        if v is not None:
            return a if v else b
        return SV(z3.If(c.b, T(a), T(b)))
    return a if bool(c) else b


def maximum(a, b):
    if isnan(a) or isnan(b):
        return NAN
    if not issym(a) and not issym(b):
        return np.float64(max(a, b))
    return where(le(b, a), a, b)


def minimum(a, b):
    if isnan(a) or isnan(b):
        return NAN
    if not issym(a) and not issym(b):
        return np.float64(min(a, b))
    return where(le(a, b), a, b)


def fmax(a, b):
    if isnan(a):
        return b
    if isnan(b):
        return a
    return maximum(a, b)


def fmin(a, b):
    if isnan(a):
        return b
    if isnan(b):
        return a
    return minimum(a, b)


def absolute(a):
    if not issym(a):
        return np.float64(abs(a))
    s = CTX.sgn(T(a))
    if s:
        return a if s > 0 else neg(a)
    return where(le(0, a), a, neg(a))


def sign(a):
    if not issym(a):
        return np.float64(np.sign(a))
    if CTX.merge:
        t = T(a)
        if CTX.positive(t) or CTX.known(t > 0) is True:
            return np.float64(1.0)
        if CTX.positive(mkneg(t)) or CTX.known(t < 0) is True:
            return np.float64(-1.0)
        return SV(z3.If(t > 0, R(1), z3.If(t < 0, R(-1), R(0))))
    return np.float64(sign_of(a))


# --------------------------------------------------------- integer-valued ops
def floor(a):
    if not issym(a):
        return np.float64(np.floor(a))
    return CTX.floor(T(a))


def ceil(a):
    if not issym(a):
        return np.float64(np.ceil(a))
    return neg(floor(neg(a)))


def trunc(a):
    if not issym(a):
        return np.float64(np.trunc(a))
    if CTX.is_integer_term(T(a)):
        return a
    if CTX.decide(T(a) >= R(0)):
        return floor(a)
    return ceil(a)


def rint(a, n=0):
    """round half to even is approximated by: result k with |a-k| <= 1/2"""
    if not issym(a):
        return np.float64(np.round(a, n))
    if n:
        s = 10 ** n
        return div(CTX.round(T(mul(a, s))), s)
    return CTX.round(T(a))


def floordiv(a, b):
    if not issym(a) and not issym(b):
        return _concrete(a, b, np.floor_divide)
    return floor(div(a, b))


def mod(a, b):
    if not issym(a) and not issym(b):
        return _concrete(a, b, np.mod)
    if isspecial(a) or isspecial(b):
        if isspecial(b) and isinstance(b, float) and math.isinf(b) and not isspecial(a):
            return a if CTX.decide(T(a) >= 0) else np.float64(b)
        return NAN
    q = div(a, b)
    if isspecial(q):
        return NAN
    k = floor(q)
    return sub(a, mul(b, k))


def fmod(a, b):
    if not issym(a) and not issym(b):
        return _concrete(a, b, np.fmod)
    q = div(a, b)
    if isspecial(q):
        return NAN
    return sub(a, mul(b, trunc(q)))


# -------------------------------------------------------------- transcendental
def sqrt(a):
    if not issym(a):
        with np.errstate(all='ignore'):
            return np.sqrt(np.float64(a))
    t = T(a)
    if z3.is_rational_value(t):
        if frac(t) < 0:
            return NAN
    elif CTX.decide(t < R(0)):
        return NAN
    return SV(CTX.fn_sqrt(t))


def cbrt(a):
    if not issym(a):
        return np.cbrt(np.float64(a))
    t = T(a)
    return SV(CTX.fn_root(t, 3))


def exp(a):
    if not issym(a):
        with np.errstate(all='ignore'):
            return np.exp(np.float64(a))
    if CTX.expinf and CTX.decide(T(a) > R(Fraction('709.7'))):
        return INF
    return SV(CTX.fn_exp(T(a)))


def expm1(a):
    if not issym(a):
        with np.errstate(all='ignore'):
            return np.expm1(np.float64(a))
    return sub(exp(a), 1)


def log(a):
    if not issym(a):
        with np.errstate(all='ignore'):
            return np.log(np.float64(a))
    t = T(a)
    if CTX.decide(t > R(0)):
        return SV(CTX.fn_log(t))
    if CTX.decide(t == R(0)):
        return np.float64(-INF)
    return NAN


def log1p(a):
    if not issym(a):
        with np.errstate(all='ignore'):
            return np.log1p(np.float64(a))
    return log(add(1, a))


def log10(a):
    if not issym(a):
        with np.errstate(all='ignore'):
            return np.log10(np.float64(a))
    return div(log(a), SV(CTX.fn_log(R(10))))


def log2(a):
    if not issym(a):
        with np.errstate(all='ignore'):
            return np.log2(np.float64(a))
    return div(log(a), SV(CTX.fn_log(R(2))))


def exp2(a):
    return power(2.0, a)


def exp10(a):
    return power(10.0, a)


def power(a, b):
    if not issym(a) and not issym(b):
        return _concrete(a, b, np.power)
    if isinstance(a, SBool):
        a = a.num()
    if isinstance(b, SBool):
        b = b.num()
    if isinstance(b, SV) and z3.is_rational_value(b.t):
        b = frac(b.t)
    if not issym(b):
        if isnan(b):
            return NAN
        if b == 0:
            return np.float64(1.0)
        if isspecial(a):
            return _concrete(a, float(b), np.power)
        if math.isinf(b):
            raise Unsupported('pow with infinite exponent')
        fb = Fraction(b) if not isinstance(b, Fraction) else b
        if fb.denominator == 1 and abs(fb) <= 24:
            n = int(fb)
            r = a
            for _ in range(abs(n) - 1):
                r = mul(r, a)
            return r if n > 0 else div(1, r)
        if fb == Fraction(1, 2):
            return sqrt(a)
        if fb == Fraction(-1, 2):
            return div(1, sqrt(a))
        t = T(a)
        # exponents are decimals up to rounding: -3.28 - 1 is -4.28
        g = fb.limit_denominator(10 ** 6)
        if abs(g - fb) <= Fraction(1, 10 ** 14) * (1 + abs(fb)):
            fb = g
        if CTX.decide(t > R(0)):
            return SV(CTX.fn_pow(t, fb))
        if CTX.decide(t == R(0)):
            return np.float64(0.0) if fb > 0 else INF
        if fb.denominator == 1:
            raise Unsupported('large integer power of a negative base')
        return NAN
    # symbolic exponent
    if isspecial(a):
        if math.isnan(a):
            if CTX.decide(T(b) == R(0)):
                return np.float64(1.0)
            return NAN
        raise Unsupported('inf ** symbolic')
    ta = T(a)
    if z3.is_rational_value(ta):
        fa = frac(ta)
        if fa == 1:
            return np.float64(1.0)
        if fa > 0:
            return exp(mul(b, SV(CTX.fn_log(ta))))
    if CTX.decide(ta > R(0)):
        return exp(mul(b, log(a)))
    if CTX.decide(ta == R(0)):
        s = sign_of(b)
        return np.float64([1.0, 0.0, INF][s])
    if CTX.is_integer_term(T(b)):
        raise Unsupported('negative ** symbolic integer')
    return NAN


def radians(a):
    if not issym(a):
        # keep pi exact in the symbolic world
        if isspecial(a):
            return _f(a)
        if a == 0:
            return np.float64(0.0)
        return SV(mkmul(R(Fraction(float(a)) / 180), PI))
    return SV(mkmul(mkdiv(T(a), R(180)), PI))


def degrees(a):
    if not issym(a):
        if isspecial(a):
            return _f(a)
        if a == 0:
            return np.float64(0.0)
        return np.degrees(np.float64(a))
    d = CTX.todeg(T(a))
    return SV(d)


def _trigarg(a):
    """degree polynomial of a radian term"""
    return CTX.degpoly(T(a))


def sin(a):
    if not issym(a):
        with np.errstate(all='ignore'):
            return np.sin(np.float64(a))
    return SV(CTX.sincos(_trigarg(a))[0])


def cos(a):
    if not issym(a):
        with np.errstate(all='ignore'):
            return np.cos(np.float64(a))
    return SV(CTX.sincos(_trigarg(a))[1])


def tan(a):
    if not issym(a):
        with np.errstate(all='ignore'):
            return np.tan(np.float64(a))
    s, c = CTX.sincos(_trigarg(a))
    return div(SV(s), SV(c))


def arccos(a):
    if not issym(a):
        with np.errstate(all='ignore'):
            return np.arccos(np.float64(a))
    t = T(a)
    if CTX.decide(z3.Or(t < R(-1), t > R(1))):
        return NAN
    return SV(mkmul(CTX.fn_acosd(t) / 180, PI))


def arcsin(a):
    if not issym(a):
        with np.errstate(all='ignore'):
            return np.arcsin(np.float64(a))
    t = T(a)
    if getattr(CTX, 'asin_uf', False):
        # harness option for arguments that are the sine of an altitude by construction (spherical identity)
        return SV(mkmul(CTX.fn_uf('asin_total', [t], -90, 90) / 180, PI))
    if CTX.decide(z3.Or(t < R(-1), t > R(1))):
        return NAN
    return SV(mkmul(CTX.fn_asind(t) / 180, PI))


def arctan(a):
    if not issym(a):
        with np.errstate(all='ignore'):
            return np.arctan(np.float64(a))
    return SV(mkmul(CTX.fn_atand(T(a)) / 180, PI))


def arctan2(y, x):
    if not issym(y) and not issym(x):
        return _concrete(y, x, np.arctan2)
    if isnan(x) or isnan(y):
        return NAN
    if isspecial(x) or isspecial(y):
        # finite/inf quadrant limits
        if isspecial(x) and isspecial(y):
            return np.arctan2(np.float64(y), np.float64(x))
        if isspecial(y):
            return mul(SV(PI), 0.5 if y > 0 else -0.5)
        if x > 0:
            return np.float64(0.0)
        return mul(SV(PI), 1 if sign_of(y) >= 0 else -1)
    ty, tx = T(y), T(x)
    if not CTX.positive(ty) and not CTX.positive(mkneg(ty)) and CTX.decide(z3.And(ty == R(0), tx == R(0))):
        return np.float64(0.0)
    r = SV(mkmul(CTX.fn_atan2d(ty, tx) / 180, PI))
    CTX.at2[r.t.get_id()] = (ty, tx, r.t)
    return r


def hypot(a, b):
    return sqrt(add(mul(a, a), mul(b, b)))


def uf(name, *args):
    """uninterpreted function application (congruence is added lazily)"""
    if any(isspecial(a) for a in args):
        return NAN
    return SV(CTX.fn_uf(name, [T(a) for a in args]))


def erf(a):
    if not issym(a):
        from scipy.special import erf as _erf
        return np.float64(_erf(a))
    return SV(CTX.fn_erf(T(a)))


def sinh(a):
    if not issym(a):
        return np.float64(np.sinh(a))
    e = exp(a)
    return div(sub(e, div(1, e)), 2)


def cosh(a):
    if not issym(a):
        return np.float64(np.cosh(a))
    e = exp(a)
    return div(add(e, div(1, e)), 2)


def tanh(a):
    if not issym(a):
        return np.float64(np.tanh(a))
    e = exp(mul(2, a))
    return div(sub(e, 1), add(e, 1))


def square(a):
    return mul(a, a)


def reciprocal(a):
    return div(1, a)
