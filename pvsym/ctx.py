"""Path context: decisions, path condition, definitional lemmas, solving."""
import functools
import math
import time
from fractions import Fraction
import numpy as np
import z3
import mpmath
from . import core
from .numeric import evalnum, NoNumeric
from .core import (R, frac, SV, PI, poly, p_add, p_mul, p_const, p_term, m_mul,
                   Unsupported, PathLimit, Infeasible, PI_MONO_ID, ATOMS)

mpmath.mp.prec = 120

PI_LO = Fraction(31415926535897932, 10 ** 16)
PI_HI = Fraction(31415926535897933, 10 ** 16)

STATS = dict(queries=0, solver_s=0.0, feas_queries=0, sat=0, unsat=0, unknown=0)


def q12(x, up, digits=13):
    """rational with few digits, rounded down/up, from an mpf"""
    x = mpmath.mpf(x)
    if x == 0:
        return Fraction(0)
    e = int(mpmath.floor(mpmath.log10(abs(x)))) - digits
    if e < -60 and False:
        pass
    sc = mpmath.mpf(10) ** (-e)
    n = int(mpmath.ceil(x * sc)) + 1 if up else int(mpmath.floor(x * sc)) - 1
    return Fraction(n) * Fraction(10) ** e


def simp_rat(x, eps=Fraction(1, 10 ** 6)):
    """a simple rational close to x"""
    x = Fraction(x)
    if x.denominator < 10 ** 6:
        return x
    r = x.limit_denominator(10 ** 6)
    return r if r != 0 or x == 0 else x.limit_denominator(10 ** 12)


EXACT_TRIG = {0: (0, 1), 90: (1, 0), 180: (0, -1), 270: (-1, 0)}


_SIGNS = {z3.Z3_OP_LT: {-1: True, 0: False, 1: False}, z3.Z3_OP_LE: {-1: True, 0: True, 1: False},
          z3.Z3_OP_GT: {-1: False, 0: False, 1: True}, z3.Z3_OP_GE: {-1: False, 0: True, 1: True},
          z3.Z3_OP_EQ: {-1: False, 0: True, 1: False}}


def _close(a, b):
    with np.errstate(all='ignore'):
        ok = np.isfinite(a) & np.isfinite(b)
        if not ok.any():
            return True
        return bool(np.all(np.abs(a - b)[ok] <= 1e-7 * (1e-9 + np.abs(a) + np.abs(b))[ok] + 1e-9))


def _ratio(a, b):
    """constant r with a = r*b at the sample points, or None"""
    with np.errstate(all='ignore'):
        ok = np.isfinite(a) & np.isfinite(b)
        if not ok.any():
            return None
        i = int(np.argmax(np.where(ok, np.abs(b), -1)))
        if b[i] == 0 or a[i] == 0:
            return None
        r = a[i] / b[i]
        for q in (1.0, -1.0):
            if abs(r - q) < 1e-7:
                r = q
        sc = np.abs(a[ok]).max()
        if not np.all(np.abs(a - r * b)[ok] <= 1e-9 * sc + 1e-7 * np.abs(a)[ok]):
            return None
        return r


def _flatmul(t):
    k = t.decl().kind() if z3.is_app(t) else None
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
        return [f for c in t.children() for f in _flatmul(c)]
    return [t]


def _sinrange(lo, hi):
    """range of sine over [lo, hi] degrees (rational, outward)"""
    f = lambda x: mpmath.sin(mpmath.mpf(x.numerator) / x.denominator * mpmath.pi / 180)
    a, b = f(lo), f(hi)
    mn, mx = q12(min(a, b), False), q12(max(a, b), True)
    if math.floor((hi - 90) / 360) >= math.ceil((lo - 90) / 360):
        mx = Fraction(1)
    if math.floor((hi + 90) / 360) >= math.ceil((lo + 90) / 360):
        mn = Fraction(-1)
    ex = {Fraction(0): 0, Fraction(90): 1, Fraction(180): 0, Fraction(270): -1}
    for x in (lo, hi):
        # exact zeros at the ends
        if x % 180 == 0:
            if abs(mn) < Fraction(1, 10 ** 12):
                mn = Fraction(0)
            if abs(mx) < Fraction(1, 10 ** 12):
                mx = Fraction(0)
    return max(mn, Fraction(-1)), min(mx, Fraction(1))


def term_vars(t, memo={}):
    """set of variable names of a term (memoised, keyed by ast id)"""
    i = t.get_id()
    r = memo.get(i)
    if r is not None and r[0].eq(t):
        return r[1]
    if z3.is_const(t):
        s = frozenset([t.decl().name()]) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
    else:
        s = frozenset().union(*[term_vars(c) for c in t.children()]) if t.children() else frozenset()
    memo[i] = (t, s)
    return s


NEAR = Fraction(1, 10 ** 12)


def _consts(t):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


class Ctx:
    def __init__(self, prefix=(), merge=False, max_decisions=400, feas_ms=1500,
                 floor_forks=12, int_floor=False, nsample=400, seed=1, expinf=False):
        self.expinf = expinf
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []            # decisions taken ('T'/'F'/'t'/'f')
        self.alternatives = []     # prefixes to explore later
        self.cons = []             # all constraints (z3 Bool)
        self.conkind = []          # 'dom' | 'path' | 'lemma' | 'def'
        self.known_lits = {}
        self.models = []
        self.merge = merge
        self.max_decisions = max_decisions
        self.feas_ms = feas_ms
        self.floor_forks = floor_forks
        self.int_floor = int_floor
        self.inputs = {}
        self.choices = {}
        self.counter = 0
        self.defs = {}             # var name -> (fn, [args], extra)
        self.deforder = []
        self.apps = {}             # (fn, key) -> result term
        self.byfn = {}             # fn -> list of (args, result)
        self.box = {}              # var name -> (lo, hi)
        self.squares = []
        self.at2 = {}
        self.acosarg = {}
        self.asinarg = {}
        self.ites, self._itememo, self._canonmemo = [], {}, {}
        self.ratdef = {}           # name -> rational term it equals
        self.trigbase = {}         # key -> (s, c, degterm)
        self.intvars = set()
        self.obligations = []
        self.points = {}
        self.keep = []
        self.forks = 0
        self.pi_used = False
        self.reach_unknown = False
        self._ivmemo = {}
        self.cmps = []
        self._tbmemo = {}
        # concrete points: name -> column; alive = points on the current path
        self.nsample = nsample
        self.seed = seed
        self.env = {}
        self.smemo = {}
        self.alive = np.ones(nsample, dtype=bool)
        self.numok = nsample > 0

    # ---------------------------------------------------------- sample points
    def _column(self, name, lo, hi, integer, n=None, salt=0):
        import zlib
        rng = np.random.default_rng([self.seed + salt, zlib.crc32(name.encode())])
        n = n or self.nsample
        l = -1e3 if isinstance(lo, float) else float(lo)
        h = 1e3 if isinstance(hi, float) else float(hi)
        if isinstance(lo, float) and not isinstance(hi, float):
            l = h - 1e3
        if isinstance(hi, float) and not isinstance(lo, float):
            h = l + 1e3
        v = rng.uniform(l, h, n)
        # a third of the points: log-like spread towards the ends and round values
        k = n // 3
        w = h - l
        e = 10.0 ** rng.uniform(-5, 0, k)
        side = rng.random(k) < 0.5
        v[:k] = np.where(side, l + w * e, h - w * e)
        c = [l, h, (l + h) / 2] + [x for x in (0.0, 1.0, 90.0, -90.0, 180.0) if l <= x <= h]
        pick = rng.random(n) < 0.12
        v[pick] = rng.choice(c, pick.sum())
        if integer:
            v = np.clip(np.round(v), l, h)
        return v

    def sval(self, c):
        """truth of a z3 Bool at the sample points (None if not evaluable)"""
        if not self.numok:
            return None
        try:
            v = evalnum(c, self.env, self.defs, None, self.smemo)
            return np.broadcast_to(v, (self.nsample,))
        except (NoNumeric, RecursionError):
            return None

    def numvec(self, t):
        """values of a term at the sample points (None if not evaluable)"""
        if not self.nsample:
            return None
        try:
            return np.broadcast_to(evalnum(t, self.env, self.defs, None, self.smemo), (self.nsample,))
        except (NoNumeric, RecursionError):
            return None

    def hasite(self, t):
        i = t.get_id()
        r = self._itememo.get(i)
        if r is None:
            r = (t, z3.is_app_of(t, z3.Z3_OP_ITE) or any(self.hasite(c) for c in t.children()))
            self._itememo[i] = r
        return r[1]

    def canon(self, t):
        """t with equal conditional terms replaced by one representative"""
        if not self.hasite(t):
            return t
        r = self._canonmemo.get(t.get_id())
        if r is not None:
            return r[1]
        cs = t.children()
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            a, b = self.canon(cs[1]), self.canon(cs[2])
            v = self.numvec(t)
            out = None
            for c2, a2, b2, v2, rep in self.ites:
                if v is None or v2 is None or not _close(v, v2):
                    continue
                s = self.condsame(cs[0], c2)
                if s is not None and self.same(a, a2 if s else b2) and self.same(b, b2 if s else a2):
                    out = rep
                    break
            if out is None:
                out = z3.If(cs[0], a, b)
                self.ites.append((cs[0], a, b, v, out))
        else:
            out = t.decl()(*[self.canon(c) if c.sort() == z3.RealSort() else c for c in cs])
        self._canonmemo[t.get_id()] = (t, out)
        return out

    def condsame(self, c, d, depth=0):
        """True: equal conditions, False: opposite ones, None: not recognised"""
        if c.eq(d):
            return True
        if z3.is_not(c) or z3.is_not(d):
            r = self.condsame(c.arg(0) if z3.is_not(c) else c, d.arg(0) if z3.is_not(d) else d, depth + 1)
            return None if r is None else r == (z3.is_not(c) == z3.is_not(d))
        if (z3.is_and(c) and z3.is_and(d) or z3.is_or(c) and z3.is_or(d)) and c.num_args() == d.num_args():
            return True if all(self.condsame(x, y, depth + 1) is True for x, y in zip(c.children(), d.children())) else None
        p, q = _SIGNS.get(c.decl().kind()), _SIGNS.get(d.decl().kind())
        if p is None or q is None or c.arg(0).sort() != z3.RealSort() or d.arg(0).sort() != z3.RealSort():
            return None
        x, y = core.mksub(c.arg(0), c.arg(1)), core.mksub(d.arg(0), d.arg(1))
        v, w = self.numvec(x), self.numvec(y)
        if v is None or w is None:
            return None
        r = _ratio(v, w)
        if r is None:
            return None
        k = Fraction(1) if r == 1 else Fraction(-1) if r == -1 else Fraction(r).limit_denominator(10 ** 4)
        if k == 0 or not self.same(x, core.mkmul(R(k), y)):
            return None
        t = {sg: p[sg if k > 0 else -sg] for sg in (-1, 0, 1)}
        if t == {sg: q[sg] for sg in (-1, 0, 1)}:
            return True
        if t == {sg: not q[sg] for sg in (-1, 0, 1)}:
            return False
        return None

    def same(self, a, b, near=False):
        """are two terms equal as rational functions (near: up to 1e-12, the
        rounding of folded constants)? (numeric prefilter)"""
        if a.eq(b):
            return True
        va, vb = self.numvec(a), self.numvec(b)
        if va is not None and vb is not None and not _close(va, vb):
            return False
        try:
            d = core.mksub(a, b)
            n, _ = core.ratf(d)
            n = self.reduce(n)
            if n and self.hasite(a) and self.hasite(b):
                d = core.mksub(self.canon(a), self.canon(b))
                n, _ = core.ratf(d)
                n = self.reduce(n)
            if not n or not near:
                return not n
            n, den = core.rat(d)
            if len(n) > 60:
                return False
            lo, hi = self.ival(core.p_term(n))
            dl, dh = self.ival(core.p_term(den))
            dm = dl if dl > 0 else -dh
            return dm > 0 and max(abs(lo), abs(hi)) <= NEAR * dm
        except (core.PolyTooBig, RecursionError, TypeError, OverflowError):
            return False

    def reduce(self, n):
        """numerator polynomial modulo sqrt(t)^2 = t and sin^2 = 1 - cos^2
        (zero iff the reduced polynomial times a non-zero factor is zero)"""
        if not n:
            return n
        pw = lambda p, k: functools.reduce(core.p_mul, [p] * k, core.p_const(1))
        # latest definition first
        for nm in reversed(list(self.defs)):
            rd = self.ratdef.get(nm)
            if rd is None and self.defs[nm][0] != 'sqrt':
                continue
            i = z3.Real(nm).get_id()
            step = 1 if rd is not None else 2
            if not any(a == i and e >= step for mono in n for a, e in mono):
                continue
            num, den = core.rat(rd if rd is not None else self.defs[nm][1][0])
            kmax = max(dict(mono).get(i, 0) // step for mono in n)
            out = {}
            groups = {}
            for mono, c in n.items():
                d = dict(mono)
                k, r = divmod(d.pop(i, 0), step)
                if r:
                    d[i] = r
                groups.setdefault(k, {})[tuple(sorted(d.items()))] = c
            for k, p in groups.items():
                out = core.p_add(out, core.p_mul(p, core.p_mul(pw(num, k), pw(den, kmax - k))))
            n = out
            if not n:
                return n
        for s, c, t in self.trigbase.values():
            if not (z3.is_const(s) and z3.is_const(c)) or z3.is_rational_value(s) or z3.is_rational_value(c):
                continue
            i, j = s.get_id(), c.get_id()
            if not any(a == i and e >= 2 for mono in n for a, e in mono):
                continue
            core.ATOMS.setdefault(j, c)
            one = {(): Fraction(1), ((j, 2),): Fraction(-1)}
            out = {}
            for mono, v in n.items():
                d = dict(mono)
                e = d.pop(i, 0)
                k, r = divmod(e, 2)
                if r:
                    d[i] = 1
                q = {tuple(sorted(d.items())): v}
                for _ in range(k):
                    q = core.p_mul(q, one)
                out = core.p_add(out, q)
            n = out
        return n

    def _wellpos(self, t):
        try:
            return self.ival(t)[0] >= 1e-3
        except (core.PolyTooBig, RecursionError, OverflowError):
            return False

    def _findapp(self, fn, args, extra=None):
        """an existing application of fn to equal arguments"""
        for a2, v in self.byfn.get((fn, extra), [])[-80:]:
            if len(a2) == len(args) and all(
                    self.same(x, y, fn in ('exp', 'erf') or fn == 'sqrt' and self._wellpos(x)) for x, y in zip(args, a2)):
                return v
        return None

    def _cmpnote(self, lit):
        neg = z3.is_not(lit)
        c = lit.arg(0) if neg else lit
        if not neg and z3.is_and(c):
            for x in c.children():
                self._cmpnote(x)
            return
        if neg and z3.is_or(c):
            for x in c.children():
                self._cmpnote(z3.Not(x))
            return
        tr = _SIGNS.get(c.decl().kind())
        if tr is None or c.arg(0).sort() != z3.RealSort():
            return
        d = core.mksub(c.arg(0), c.arg(1))
        v = self.numvec(d)
        if v is None:
            return
        self.cmps.append((v, d, frozenset(sg for sg in (-1, 0, 1) if tr[sg] != neg)))
        if len(self.cmps) > 120:
            self.cmps.pop(0)

    def _cmpknown(self, c):
        tr = _SIGNS[c.decl().kind()]
        if not self.cmps or c.arg(0).sort() != z3.RealSort():
            return None
        d = core.mksub(c.arg(0), c.arg(1))
        v = self.numvec(d)
        if v is None:
            return None
        poss = {-1, 0, 1}
        for w, e, signs in self.cmps:
            r = _ratio(v, w)
            if r is None:
                continue
            for q in ([Fraction(1)] if r == 1 else [Fraction(-1)] if r == -1 else
                      [Fraction(r).limit_denominator(10 ** 4), Fraction(r).limit_denominator(10 ** 9)]):
                try:
                    n, _ = core.ratf(core.mksub(d, core.mkmul(R(q), e)))
                    n = self.reduce(n)
                except (core.PolyTooBig, RecursionError):
                    break
                if not n:
                    poss &= {(sg if q > 0 else -sg) for sg in signs}
                    break
            vals = {tr[sg] for sg in poss}
            if len(vals) == 1:
                return vals.pop()
        return None

    def _sumsq(self, p):
        """the registered terms whose squares add up to polynomial p"""
        for qs in self.squares:
            t = p
            for q in qs:
                t = p_add(t, poly(q * q), -1)
            if not self.reduce(t):
                return qs
        return None

    def _squareknown(self, k, c):
        """|N| <= sqrt(S) where S - N^2 is the square of a term given as a hint"""
        if k == z3.Z3_OP_EQ and c.arg(0).sort() == z3.RealSort():
            d = core.mksub(c.arg(0), c.arg(1))
            for nm, (fn, args, _) in self.defs.items():
                if fn == 'sqrt' and (d.eq(0 - z3.Real(nm)) or self.same(d, z3.Real(nm)) or self.same(d, -z3.Real(nm))):
                    sn, sd = core.rat(args[0])
                    qs = self._sumsq(sn) if set(sd) == {()} and sd[()] == 1 else None
                    if qs and any(self._cmpknown(q > 0) is True or self._cmpknown(q < 0) is True for q in qs):
                        return False
            return None
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or c.arg(0).sort() != z3.RealSort():
            return None
        a, b = c.arg(0), c.arg(1)
        # what has to be shown non-negative for the comparison to be known
        val = k in (z3.Z3_OP_LE, z3.Z3_OP_GE)
        d = core.mksub(b, a) if k in (z3.Z3_OP_LE, z3.Z3_OP_GT) else core.mksub(a, b)
        try:
            num, den = core.rat(d)
            if self.sgn(core.p_term(den)) != 1:
                return None
            for nm, (fn, args, _) in self.defs.items():
                if fn != 'sqrt':
                    continue
                i = z3.Real(nm).get_id()
                al = {tuple(sorted((x, e) for x, e in mono if x != i)): v for mono, v in num.items() if dict(mono).get(i, 0) == 1}
                be = {mono: v for mono, v in num.items() if i not in dict(mono)}
                if len(al) != 1 or () not in al or al[()] < 0 or len(be) + 1 != len(num):
                    continue
                sn, sd = core.rat(args[0])
                if set(sd) != {()}:
                    continue
                p = p_add({m: v * al[()]**2 / sd[()] for m, v in sn.items()}, p_mul(be, be), -1)
                if self._sumsq(p) is not None:
                    return val
        except (core.PolyTooBig, RecursionError):
            pass
        return None

    def _trigknown(self, k, c):
        """decide a comparison from a Cauchy-Schwarz bound on a trigonometric sum"""
        if not self.trigbase or c.arg(0).sort() != z3.RealSort():
            return None
        try:
            p = p_add(poly(c.arg(0)), poly(c.arg(1)), -1)
        except core.PolyTooBig:
            return None
        c0 = p.pop((), Fraction(0))
        if not p or len(p) > 12:
            return None
        b = self._trigbound(p)
        if b is None:
            return None
        lo, hi = c0 - b, c0 + b
        v = {z3.Z3_OP_LT: True if hi < 0 else False if lo >= 0 else None,
             z3.Z3_OP_LE: True if hi <= 0 else False if lo > 0 else None,
             z3.Z3_OP_GT: True if lo > 0 else False if hi <= 0 else None,
             z3.Z3_OP_GE: True if lo >= 0 else False if hi < 0 else None,
             z3.Z3_OP_EQ: False if lo > 0 or hi < 0 else None}[k]
        if v is not None:
            self.cons.append(c if v else z3.Not(c))
            self.conkind.append('lemma')
            self._note(self.cons[-1], True)
        return v

    def _trigbound(self, p):
        """B with |p| <= B for a polynomial in sines and cosines:
        sum u_i v_i <= sqrt(sum u_i^2) sqrt(sum v_i^2), the angles being split
        between the two vectors"""
        key = tuple(sorted(p.items()))
        if key in self._tbmemo:
            return self._tbmemo[key]
        self._tbmemo[key] = None
        own = {}
        for kk, (s, c, t) in self.trigbase.items():
            for w, a in (('s', s), ('c', c)):
                if z3.is_const(a) and not z3.is_rational_value(a):
                    own.setdefault(a.get_id(), (kk, w, s, c))
        angles = []
        for m in p:
            for i, e in m:
                if i not in own or e < 0:
                    return None
                if own[i][0] not in angles:
                    angles.append(own[i][0])
        if len(angles) > 6:
            return None
        sq = {}
        for kk in angles:
            s, c, t = self.trigbase[kk]
            if z3.is_const(s) and z3.is_const(c):
                sq[s.get_id()] = c.get_id()

        def reduce(q):
            for _ in range(8):
                r, ch = {}, False
                for m, cf in q.items():
                    hit = next(((i, e) for i, e in m if i in sq and e >= 2), None)
                    if hit is None:
                        r = p_add(r, {m: cf})
                        continue
                    ch = True
                    i, e = hit
                    rest = m_mul(m, ((i, -2),))
                    r = p_add(r, {rest: cf})
                    r = p_add(r, {m_mul(rest, ((sq[i], 2),)): -cf})
                q = r
                if not ch:
                    break
            return q
        best = None
        for mask in range(1 << max(len(angles) - 1, 0)):
            U = {a for j, a in enumerate(angles) if j == 0 or mask >> (j - 1) & 1}
            us, vs = {}, {}
            for m, cf in p.items():
                u = tuple((i, e) for i, e in m if own[i][0] in U)
                w = tuple((i, e) for i, e in m if own[i][0] not in U)
                us = p_add(us, {tuple((i, 2 * e) for i, e in u): cf * cf})
                vs = p_add(vs, {tuple((i, 2 * e) for i, e in w): Fraction(1)})
            us, vs = reduce(us), reduce(vs)
            if set(us) <= {()} and set(vs) <= {()}:
                n = us.get((), Fraction(0)) * vs.get((), Fraction(0))
                r = math.isqrt(n.numerator * n.denominator)
                r = Fraction(r if r * r == n.numerator * n.denominator else r + 1, n.denominator)
                best = r if best is None else min(best, r)
        self._tbmemo[key] = best
        return best

    def points_refuting(self, neg, rounds=6, n=30000, seconds=20):
        """concrete input points on the current path at which neg holds (candidate
        counterexamples where the solver gives no model; replayed by the caller)"""
        import time
        t0 = time.time()
        lits = [c for c, k in zip(self.cons, self.conkind) if k in ('dom', 'path')]
        old = np.flatnonzero(self.alive) if self.numok else np.zeros(0, int)
        for r in range(rounds):
            env = {}
            for name in self.inputs:
                lo, hi = self.box.get(name, (-math.inf, math.inf))
                env[name] = self._column(name, lo, hi, name in self.intvars, n, 1000 + r)
            if r % 2 and len(old):
                # around points already known to be on the path
                rng = np.random.default_rng(r)
                pick = rng.choice(old, n)
                for name in env:
                    keep = rng.random(n) < 0.6
                    env[name] = np.where(keep, self.env[name][pick], env[name])
            for name, v in self.env.items():
                if name not in env and np.ndim(v) == 0:
                    env[name] = v
            ok = np.ones(n, bool)
            memo = {}
            try:
                for c in lits + [neg]:
                    ok &= np.broadcast_to(evalnum(c, env, self.defs, None, memo), (n,)).astype(bool)
                    if not ok.any():
                        break
            except (NoNumeric, RecursionError):
                return
            for i in np.flatnonzero(ok)[:3]:
                yield {name: float(env[name][i]) for name in self.inputs}
            if time.time() - t0 > seconds:
                return

    def _salive(self, lit):
        v = self.sval(lit)
        if v is None:
            # the path can no longer be followed numerically
            self.numok = False
            self.alive = np.zeros(self.nsample, dtype=bool)
        else:
            self.alive = self.alive & v.astype(bool)

    # ------------------------------------------------------------ constraints
    def add(self, c, kind='path'):
        if isinstance(c, bool):
            if not c:
                raise Infeasible
            return
        c = core.simp_bool(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible
        self.cons.append(c)
        self.conkind.append(kind)
        self._note(c, True)
        if kind in ('dom', 'path'):
            self._salive(c)
            self._cmpnote(c)
            self._tighten(c)
        if self.models:
            ms = []
            for m in self.models:
                if z3.is_true(m.eval(c, model_completion=True)):
                    ms.append(m)
            self.models = ms

    def _note(self, c, val):
        if z3.is_not(c):
            c, val = c.arg(0), not val
        self.known_lits[c.get_id()] = (c, val)
        k = c.decl().kind()
        if k == z3.Z3_OP_AND and val or k == z3.Z3_OP_OR and not val:
            for x in c.children():
                self._note(x, val)
        elif k in (z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_LE, z3.Z3_OP_GT):
            x, y = c.arg(0), c.arg(1)
            comp = {z3.Z3_OP_LT: x >= y, z3.Z3_OP_GE: x < y, z3.Z3_OP_LE: x > y, z3.Z3_OP_GT: x <= y}[k]
            sym = {z3.Z3_OP_LT: y > x, z3.Z3_OP_GE: y <= x, z3.Z3_OP_LE: y >= x, z3.Z3_OP_GT: y < x}[k]
            scomp = {z3.Z3_OP_LT: y <= x, z3.Z3_OP_GE: y > x, z3.Z3_OP_LE: y < x, z3.Z3_OP_GT: y >= x}[k]
            for t, v in ((comp, not val), (sym, val), (scomp, not val)):
                self.known_lits[t.get_id()] = (t, v)
            strict = (k in (z3.Z3_OP_LT, z3.Z3_OP_GT)) == val
            if strict:
                for t in (x == y, y == x):
                    self.known_lits[t.get_id()] = (t, False)

    def known(self, c):
        neg = False
        while z3.is_not(c):
            c, neg = c.arg(0), not neg
        r = self.known_lits.get(c.get_id())
        if r is not None and r[0].eq(c):
            return r[1] != neg
        # interval reasoning over boxes for linear comparisons
        k = c.decl().kind()
        if k in (z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            v = self._ivdecide(k, c.arg(0), c.arg(1))
            if v is None:
                v = self._trigknown(k, c)
            if v is None:
                v = self._cmpknown(c)
            if v is None and self.squares:
                v = self._squareknown(k, c)
            if v is not None:
                return v != neg
        if k == z3.Z3_OP_AND or k == z3.Z3_OP_OR:
            vs = [self.known(x) for x in c.children()]
            if k == z3.Z3_OP_AND:
                if False in vs:
                    return neg
                if all(v is True for v in vs):
                    return not neg
            else:
                if True in vs:
                    return not neg
                if all(v is False for v in vs):
                    return neg
        return None

    def _ivdecide(self, k, x, y):
        a, b = self.ival(x), self.ival(y)
        if k == z3.Z3_OP_LT:
            return True if a[1] < b[0] else False if a[0] >= b[1] else None
        if k == z3.Z3_OP_LE:
            return True if a[1] <= b[0] else False if a[0] > b[1] else None
        if k == z3.Z3_OP_GT:
            return True if a[0] > b[1] else False if a[1] <= b[0] else None
        if k == z3.Z3_OP_GE:
            return True if a[0] >= b[1] else False if a[1] < b[0] else None
        if k == z3.Z3_OP_EQ:
            return False if a[1] < b[0] or a[0] > b[1] else None

    # ------------------------------------------------------------- intervals
    def ival(self, t, depth=0):
        """(lo, hi) over-approximation from variable boxes (exact rationals,
        +-inf as floats)"""
        i = t.get_id()
        r = self._ivmemo.get(i)
        if r is not None and r[0].eq(t):
            return r[1]
        v = self._ival(t)
        self._ivmemo[i] = (t, v)
        return v

    def _ival(self, t):
        inf = math.inf
        if z3.is_rational_value(t):
            f = frac(t)
            return (f, f)
        if z3.is_const(t):
            if t.eq(PI):
                return (PI_LO, PI_HI)
            return self.box.get(t.decl().name(), (-inf, inf))
        k = t.decl().kind()
        cs = t.children()

        def m(a, b):
            if a == 0 or b == 0:
                return 0
            return a * b if not (isinstance(a, float) or isinstance(b, float)) else \
                (inf if (a > 0) == (b > 0) else -inf)
        if k == z3.Z3_OP_ADD:
            lo = hi = Fraction(0)
            for c in cs:
                a = self.ival(c)
                lo, hi = lo + a[0], hi + a[1]
            return self._trigival(t, lo, hi)
        if k == z3.Z3_OP_SUB:
            lo, hi = self.ival(cs[0])
            for c in cs[1:]:
                a = self.ival(c)
                lo, hi = lo - a[1], hi - a[0]
            return self._trigival(t, lo, hi)
        if k == z3.Z3_OP_UMINUS:
            a = self.ival(cs[0])
            return (-a[1], -a[0])
        if k == z3.Z3_OP_MUL:
            if len(cs) == 2 and cs[0].eq(cs[1]):
                a = self.ival(cs[0])
                p = [m(a[0], a[0]), m(a[1], a[1])]
                return (0 if a[0] <= 0 <= a[1] else min(p), max(p))
            lo, hi = self.ival(cs[0])
            for c in cs[1:]:
                a = self.ival(c)
                p = [m(lo, a[0]), m(lo, a[1]), m(hi, a[0]), m(hi, a[1])]
                lo, hi = min(p), max(p)
            return (lo, hi)
        if k == z3.Z3_OP_DIV:
            a, b = self.ival(cs[0]), self.ival(cs[1])
            if b[0] > 0 or b[1] < 0:
                def inv(x):
                    return Fraction(0) if isinstance(x, float) else 1 / Fraction(x)
                b = (inv(b[1]), inv(b[0]))
                p = [m(a[0], b[0]), m(a[0], b[1]), m(a[1], b[0]), m(a[1], b[1])]
                return (min(p), max(p))
            return (-inf, inf)
        if k == z3.Z3_OP_ITE:
            a, b = self.ival(cs[1]), self.ival(cs[2])
            return (min(a[0], b[0]), max(a[1], b[1]))
        if k == z3.Z3_OP_TO_REAL:
            return self.ival(cs[0])
        return (-inf, inf)

    def _trigival(self, t, lo, hi):
        if self.trigbase and len(term_vars(t)) <= 14:
            try:
                p = poly(t)
            except core.PolyTooBig:
                return (lo, hi)
            if len(p) <= 12:
                p = dict(p)
                c0 = p.pop((), Fraction(0))
                b = self._trigbound(p) if p else None
                if b is not None:
                    lo, hi = max(lo, c0 - b), min(hi, c0 + b)
        return (lo, hi)

    def positive(self, t):
        """t > 0 by intervals, also of its normal form"""
        if self.ival(t)[0] > 0:
            return True
        if self.cmps and self._cmpknown(t > 0) is True:
            return True
        try:
            return self.ival(p_term(poly(t)))[0] > 0
        except (core.PolyTooBig, RecursionError):
            return False

    def sgn(self, t, depth=0):
        """1: t >= 0, -1: t <= 0 on this path (0: unknown); structural"""
        lo, hi = self.ival(t)
        if lo >= 0:
            return 1
        if hi <= 0:
            return -1
        if depth > 8 or not z3.is_app(t):
            return 0
        k = t.decl().kind()
        cs = t.children()
        r = 0
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
            r = 1
            fs = _flatmul(t)
            seen = {}
            for f in fs:
                seen.setdefault(f.get_id(), [f, 0])[1] += 1
            for f, n in seen.values():
                if n % 2:
                    r *= self.sgn(f, depth + 1)
                if r == 0:
                    break
        elif k == z3.Z3_OP_ADD:
            ss = {self.sgn(c, depth + 1) for c in cs}
            r = 1 if ss == {1} else -1 if ss == {-1} else 0
        elif k == z3.Z3_OP_SUB:
            ss = {self.sgn(cs[0], depth + 1)} | {-self.sgn(c, depth + 1) for c in cs[1:]}
            r = 1 if ss == {1} else -1 if ss == {-1} else 0
        elif k == z3.Z3_OP_UMINUS:
            r = -self.sgn(cs[0], depth + 1)
        elif k == z3.Z3_OP_ITE:
            ss = {self.sgn(c, depth + 1) for c in cs[1:]}
            r = ss.pop() if len(ss) == 1 else 0
        if r:
            return r
        if self._cmpknown(t >= 0) is True:
            return 1
        if self._cmpknown(t <= 0) is True:
            return -1
        return 0

    # -------------------------------------------------------------- solving
    def feasible(self, c):
        """True/False/None for cons & c ; caches the model"""
        STATS['feas_queries'] += 1
        pis = [PI > R(PI_LO), PI < R(PI_HI)] if self.pi_used else []
        vs = term_vars(c)
        sizes = []
        for hop in (0, 1):
            if hop:
                add = set()
                for q in self.cons:
                    cv = term_vars(q)
                    if cv & vs and len(cv) <= 6:
                        add |= cv
                vs = vs | add
            near = [q for q in self.cons if term_vars(q) <= vs]
            if len(near) in sizes or len(near) >= len(self.cons) * 0.8:
                continue
            sizes.append(len(near))
            if self._solve(near + pis + [c], min(self.feas_ms, 700))[0] == z3.unsat:
                return False
        r, m = self._solve(self.cons + pis + [c], self.feas_ms)
        if r == z3.sat:
            self._newmodel = m
            return True
        if r == z3.unsat:
            return False
        return None

    def _solve(self, cons, ms):
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*cons)
        t0 = time.time()
        r = s.check()
        STATS['solver_s'] += time.time() - t0
        return r, (s.model() if r == z3.sat else None)

    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = core.simp_bool(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        v = self.known(c)
        if v is not None:
            return v
        if len(self.trace) >= self.max_decisions:
            raise PathLimit('more than %d decisions on one path' % self.max_decisions)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            v = d in 'Tt'
            lit = c if v else z3.Not(c)
            self._push(lit)
            return v
        # fresh decision
        ft = ff = None
        st = sf = False
        if self.numok and self.alive.any():
            sv = self.sval(c)
            if sv is not None:
                sv = sv.astype(bool)
                st = bool((sv & self.alive).any())
                sf = bool((~sv & self.alive).any())
        mt = st or [m for m in self.models if z3.is_true(m.eval(c, model_completion=True))]
        mf = sf or [m for m in self.models if z3.is_false(m.eval(c, model_completion=True))]
        if mt:
            ft = True
        else:
            ft = self.feasible(c)
            if ft:
                self.models.append(self._newmodel)
        if ft is False:
            ff = True      # path itself is assumed feasible
        elif mf:
            ff = True
        else:
            ff = self.feasible(z3.Not(c))
            if ff:
                self.models.append(self._newmodel)
        if ft is None or ff is None:
            self.reach_unknown = True
        self.pos += 1
        if ft is False:
            v, d = False, 'f'
        elif ff is False:
            v, d = True, 't'
        else:
            v, d = True, 'T'
            self.forks += 1
            self.alternatives.append(self.trace + ['F'])
        self.trace.append(d)
        self._push(c if v else z3.Not(c))
        return v

    def _push(self, lit):
        self.cons.append(lit)
        self.conkind.append('path')
        self._note(lit, True)
        self._salive(lit)
        self._cmpnote(lit)
        if self.models:
            self.models = [m for m in self.models
                           if z3.is_true(m.eval(lit, model_completion=True))]
        self._tighten(lit)

    def _tighten(self, lit):
        """tighten variable boxes from simple bounds  v <= c"""
        neg = z3.is_not(lit)
        c = lit.arg(0) if neg else lit
        k = c.decl().kind()
        if k not in (z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            return
        x, y = c.arg(0), c.arg(1)
        if k == z3.Z3_OP_EQ:
            if neg:
                return
            ks = ['le', 'ge']
        else:
            up = k in (z3.Z3_OP_LT, z3.Z3_OP_LE)
            if neg:
                up = not up
            ks = ['le' if up else 'ge']
        # linear in a single variable?
        if len(term_vars(x) | term_vars(y)) != 1:
            return
        try:
            p = p_add(poly(x), poly(y), -1)
        except core.PolyTooBig:
            return
        mons = [m for m in p if m]
        if len(mons) != 1 or len(mons[0]) != 1 or mons[0][0][1] != 1:
            return
        v = ATOMS[mons[0][0][0]]
        if not (z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED) or v.eq(PI):
            return
        a = p[mons[0]]
        bnd = -p.get((), Fraction(0)) / a
        n = v.decl().name()
        lo, hi = self.box.get(n, (-math.inf, math.inf))
        for kk in ks:
            if (kk == 'le') == (a > 0):
                hi = min(hi, bnd)
            else:
                lo = max(lo, bnd)
        if (lo, hi) != self.box.get(n):
            self.box[n] = (lo, hi)
            self._ivmemo = {}

    def fork_choice(self, n):
        """n-way fork"""
        for i in range(n - 1):
            b = z3.Bool('choice!%d!%d' % (self.counter, i))
            if self._free_decide(b):
                return i
        return n - 1

    def _free_decide(self, b):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            return d in 'Tt'
        self.pos += 1
        self.alternatives.append(self.trace + ['F'])
        self.trace.append('T')
        self.forks += 1
        return True

    # ------------------------------------------------------------ variables
    def fresh(self, tag, lo=None, hi=None):
        self.counter += 1
        n = '%s!%d' % (tag, self.counter)
        v = z3.Real(n)
        if lo is not None or hi is not None:
            self.box[n] = (-math.inf if lo is None else Fraction(lo),
                           math.inf if hi is None else Fraction(hi))
            if lo is not None:
                self.add(v >= R(Fraction(lo)), 'def')
            if hi is not None:
                self.add(v <= R(Fraction(hi)), 'def')
        return v

    def input(self, name, lo=None, hi=None, lo_open=False, hi_open=False, integer=False):
        if name in self.inputs:
            raise ValueError('duplicate input ' + name)
        v = z3.Real(name)
        self.inputs[name] = v
        self.box[name] = (-math.inf if lo is None else Fraction(lo),
                          math.inf if hi is None else Fraction(hi))
        if integer:
            self.intvars.add(name)
        if self.nsample:
            self.env[name] = self._column(name, *self.box[name], integer)
        if lo is not None:
            self.add(v > R(lo) if lo_open else v >= R(lo), 'dom')
        if hi is not None:
            self.add(v < R(hi) if hi_open else v <= R(hi), 'dom')
        return SV(v)

    def is_integer_term(self, t):
        """every monomial has an integer coefficient and integer variables"""
        try:
            p = poly(t)
        except core.PolyTooBig:
            return False
        for m, c in p.items():
            if c.denominator != 1:
                return False
            for i, e in m:
                a = ATOMS[i]
                if e < 0 or not (z3.is_const(a) and a.decl().name() in self.intvars or
                                 a.decl().kind() == z3.Z3_OP_TO_REAL):
                    return False
        return True

    def enum_int(self, a, limit=80):
        """concretise an integer-valued symbolic number by forking"""
        if not core.issym(a):
            return int(a)
        t = core.T(a)
        if z3.is_rational_value(t):
            return int(frac(t))
        lo, hi = self.ival(t)
        if isinstance(lo, float) or isinstance(hi, float) or hi - lo > limit:
            raise Unsupported('unbounded symbolic index')
        lo, hi = math.ceil(lo), math.floor(hi)
        for k in range(lo, hi):
            if self.decide(t == R(k)):
                return k
        self.add(t == R(hi))
        return hi

    def floor(self, t):
        if z3.is_rational_value(t):
            return np.float64(math.floor(frac(t)))
        if self.is_integer_term(t):
            return SV(t)
        # pull integer-valued summands out
        try:
            p = poly(t)
        except core.PolyTooBig:
            p = None
        ip = {}
        if p is not None:
            for m, c in list(p.items()):
                if m and c.denominator == 1 and all(
                        e > 0 and z3.is_const(ATOMS[i]) and ATOMS[i].decl().name() in self.intvars
                        for i, e in m):
                    ip[m] = c
            if ip:
                p = {m: c for m, c in p.items() if m not in ip}
                t = p_term(p)
        key = ('floor', self._key(t))
        if key in self.apps:
            r = self.apps[key]
        else:
            lo, hi = self.ival(t)
            n = None
            if not isinstance(lo, float) and not isinstance(hi, float):
                n = math.floor(hi) - math.floor(lo) + 1
            if n is not None and n <= self.floor_forks:
                r = None
                for k in range(math.floor(lo), math.floor(hi)):
                    if self.decide(t < R(k + 1)):
                        r = R(k)
                        break
                if r is None:
                    r = R(math.floor(hi))
            else:
                self.counter += 1
                nme = 'floor!%d' % self.counter
                if self.int_floor:
                    r = z3.ToReal(z3.Int(nme))
                else:
                    r = z3.Real(nme)
                self.intvars.add(nme)
                self.defs[nme] = ('floor', [t], None)
                if n is not None:
                    self.box[nme] = (Fraction(math.floor(lo)), Fraction(math.floor(hi)))
                self.add(z3.And(r <= t, t < r + 1), 'def')
            self.apps[key] = r
        if ip:
            r = core.mkadd(r, p_term(ip))
        if z3.is_rational_value(r):
            return np.float64(float(frac(r)))
        return SV(r)

    def round(self, t):
        if z3.is_rational_value(t):
            return np.float64(round(frac(t)))
        if self.is_integer_term(t):
            return SV(t)
        f = self.floor(t + R(Fraction(1, 2)))
        # exact half: round half to even
        half = core.eq(core.sub(f, SV(t)), 0.5)
        if half is False:
            return f
        if self.decide(half.b if isinstance(half, core.SBool) else half):
            # k = f or f-1, whichever is even
            if not core.issym(f):
                return np.float64(f if f % 2 == 0 else f - 1)
            h = core.floor(core.div(f, 2))
            if self.decide(core.T(f) == 2 * core.T(h)):
                return f
            return core.sub(f, 1)
        return f

    # --------------------------------------------------------- definitions
    def _key(self, t):
        """canonical key of a term"""
        try:
            p = poly(t)
            return ('p', tuple(sorted(p.items())))
        except core.PolyTooBig:
            u = z3.simplify(t)
            self.keep.append(u)
            return ('t', u.get_id())

    def _define(self, fn, args, lo=None, hi=None, extra=None):
        v = self.fresh(fn, lo, hi)
        n = v.decl().name()
        self.defs[n] = (fn, list(args), extra)
        self.byfn.setdefault((fn, extra), []).append((list(args), v))
        return v

    def fn_sqrt(self, t):
        if z3.is_rational_value(t):
            f = frac(t)
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return R(Fraction(a, b))
        key = ('sqrt', self._key(t))
        if key not in self.apps:
            old = self._findapp('sqrt', [t])
            if old is not None:
                self.apps[key] = old
        if key not in self.apps:
            # sqrt(x*x) etc. are left to the solver
            iv = self.ival(t)
            hi = None
            if not isinstance(iv[1], float):
                hi = Fraction(math.isqrt(int(iv[1] * 10 ** 12) + 1) + 1, 10 ** 6)
            v = self._define('sqrt', [t], 0, hi)
            self.add(v * v == t, 'def')
            self.apps[key] = v
        return self.apps[key]

    def fn_root(self, t, n):
        key = ('root%d' % n, self._key(t))
        if key not in self.apps:
            v = self._define('cbrt', [t])
            self.add(v * v * v == t, 'def')
            self.apps[key] = v
        return self.apps[key]

    def fn_exp(self, t):
        if z3.is_rational_value(t) and frac(t) == 0:
            return R(1)
        # exp(log x) = x
        if z3.is_const(t) and self.defs.get(t.decl().name(), ('',))[0] == 'log':
            return self.defs[t.decl().name()][1][0]
        sp = self._expsplit(t)
        if sp is not None:
            return sp
        key = ('exp', self._key(t))
        if key not in self.apps:
            old = self._findapp('exp', [t])
            if old is not None:
                self.apps[key] = old
        if key not in self.apps:
            for (a,), e in self.byfn.get(('exp', None), []):
                # exp(-a) = 1/exp(a)
                try:
                    if not p_add(poly(a), poly(t)):
                        self.apps[key] = 1 / e
                        return self.apps[key]
                except core.PolyTooBig:
                    pass
            iv = self.ival(t)
            v = self._define('exp', [t])
            self.add(v > R(0), 'def')
            lo = q12(mpmath.exp(mpmath.mpf(iv[0].numerator) / iv[0].denominator), False) \
                if not isinstance(iv[0], float) and iv[0] > -600 else None
            hi = q12(mpmath.exp(mpmath.mpf(iv[1].numerator) / iv[1].denominator), True) \
                if not isinstance(iv[1], float) and iv[1] < 600 else None
            self.box[v.decl().name()] = (max(lo, Fraction(0)) if lo is not None else Fraction(0),
                                         hi if hi is not None else math.inf)
            if lo is not None and lo > 0:
                self.add(v >= R(lo), 'lemma')
            if hi is not None:
                self.add(v <= R(hi), 'lemma')
            if z3.is_rational_value(t):
                pass
            else:
                self.add(v >= 1 + t, 'lemma')
                self.add((t < 0) == (v < 1), 'lemma')
                self.add((t == 0) == (v == 1), 'lemma')
                self._pairs('exp', None, [t], v, True)
            self.apps[key] = v
        return self.apps[key]

    def _expsplit(self, t):
        """exp(k log a + r) = a**k exp(r), exp(k W(x) + r) = (x / W(x))**k exp(r)"""
        try:
            n, den = core.ratf(t)
        except (core.PolyTooBig, RecursionError):
            return None
        if den:
            c = core.poly(core.p_term(core._expand(den)))
            if set(c) != {()}:
                # the split part must be a polynomial: look at the plain sum instead
                return self._expsplit_sum(t)
            n = {mo: v / c[()] for mo, v in n.items()}
        fac, rest = None, dict(n)
        for mono, k in n.items():
            if len(mono) != 1 or mono[0][1] != 1 or k.denominator != 1 or abs(k) > 6:
                continue
            a = core.ATOMS.get(mono[0][0])
            if a is None or not z3.is_const(a) or a.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                continue
            e = self._expof(a)
            if e is None:
                continue
            del rest[mono]
            for _ in range(abs(int(k))):
                fac = (e if k > 0 else core.mkdiv(R(1), e)) if fac is None else core.mkmul(fac, e) if k > 0 else core.mkdiv(fac, e)
        if fac is None:
            return None
        r = core.p_term(rest) if rest else None
        return fac if r is None else core.mkmul(fac, self.fn_exp(r))

    def _expof(self, a):
        fn, args, _ = self.defs.get(a.decl().name(), ('', (), None))
        if fn == 'log':
            return args[0]
        if fn == 'lambertw':
            return core.mkdiv(args[0], a)
        if fn == 'lambertwlog':
            return core.mkdiv(self.fn_exp(args[0]), a)
        return None

    def _expsplit_sum(self, t):
        for name, (fn, args, _) in list(self.defs.items()):
            if fn not in ('lambertw', 'lambertwlog', 'log'):
                continue
            a = z3.Real(name)
            if a.get_id() not in {x.get_id() for x in _consts(t)}:
                continue
            for k in (1, -1):
                r = core.mksub(t, core.mkmul(R(k), a))
                try:
                    n, den = core.ratf(r)
                except (core.PolyTooBig, RecursionError):
                    continue
                i = a.get_id()
                if any(x == i for mo in n for x, _ in mo) or any(
                        x == i for p, _ in den.values() for mo in p for x, _ in mo):
                    continue
                e = self._expof(a)
                r = core.mkdiv(core.p_term(n), core.p_term(core._expand(den))) if n else R(0)
                x = self.fn_exp(r)
                return core.mkmul(e, x) if k > 0 else core.mkdiv(x, e)
        return None

    def fn_log(self, t):
        """log of a positive term"""
        if z3.is_rational_value(t) and frac(t) == 1:
            return R(0)
        if z3.is_const(t) and self.defs.get(t.decl().name(), ('',))[0] == 'exp':
            return self.defs[t.decl().name()][1][0]
        key = ('log', self._key(t))
        if key not in self.apps and not z3.is_rational_value(t):
            for (a,), e in self.byfn.get(('exp', None), []):
                if self.same(t / e, R(1), True):
                    self.apps[key] = a
                    break
                if self.same(t * e, R(1), True):
                    self.apps[key] = -a
                    break
            es = self.byfn.get(('exp', None), [])
            for i, ((a,), e) in enumerate(es[:12] if key not in self.apps else ()):
                for (b,), f in es[i + 1:12]:
                    for sa, u in ((a - b, t * f - e), (b - a, t * e - f), (a + b, t - e * f)):
                        if key not in self.apps and self.same(u, R(0), True):
                            self.apps[key] = sa
        if key not in self.apps and not z3.is_rational_value(t):
            for (a,), v in self.byfn.get(('log', None), [])[:12]:
                if self.same(t * a, R(1), True):
                    self.apps[key] = -v
                    break
        if key not in self.apps:
            old = self._findapp('log', [t])
            if old is not None:
                self.apps[key] = old
        if key not in self.apps:
            iv = self.ival(t)
            lo = hi = None
            if not isinstance(iv[0], float) and iv[0] > 0:
                lo = q12(mpmath.log(mpmath.mpf(iv[0].numerator) / iv[0].denominator), False)
            if not isinstance(iv[1], float) and iv[1] > 0:
                hi = q12(mpmath.log(mpmath.mpf(iv[1].numerator) / iv[1].denominator), True)
            v = self._define('log', [t], lo, hi)
            if not z3.is_rational_value(t):
                self.add(v <= t - 1, 'lemma')
                self.add((v < 0) == (t < 1), 'lemma')
                self.add((v == 0) == (t == 1), 'lemma')
                self._pairs('log', None, [t], v, True)
            self.apps[key] = v
        return self.apps[key]

    def fn_pow(self, t, q):
        """t**q for t > 0 and a concrete rational q"""
        key = ('pow', q, self._key(t))
        if key not in self.apps:
            old = self._findapp('pow', [t], q)
            if old is not None:
                self.apps[key] = old
            else:
                # t**q = t**(q - p) * t**p for a known power p, q - p an integer
                for (fn, p), lst in list(self.byfn.items()):
                    if fn == 'pow' and (q - p).denominator == 1 and abs(q - p) <= 6:
                        for (a,), w in lst:
                            if self.same(a, t):
                                n = int(q - p)
                                r = w
                                for _ in range(abs(n)):
                                    r = core.mkmul(r, t) if n > 0 else core.mkdiv(r, t)
                                self.apps[key] = r
                                return r
        if key not in self.apps:
            iv = self.ival(t)

            def mpw(x):
                return mpmath.power(mpmath.mpf(x.numerator) / x.denominator,
                                    mpmath.mpf(q.numerator) / q.denominator)
            lo, hi = Fraction(0), None
            if not isinstance(iv[0], float) and iv[0] > 0:
                if q > 0:
                    lo = q12(mpw(iv[0]), False)
                else:
                    hi = q12(mpw(iv[0]), True)
            if not isinstance(iv[1], float) and iv[1] > 0:
                if q > 0:
                    hi = q12(mpw(iv[1]), True)
                else:
                    lo = q12(mpw(iv[1]), False)
            v = self._define('pow', [t], max(lo, 0), hi, extra=q)
            self.add(v > R(0), 'lemma')
            if not z3.is_rational_value(t):
                if q > 0:
                    self.add((t < 1) == (v < 1), 'lemma')
                else:
                    self.add((t < 1) == (v > 1), 'lemma')
                self.add((t == 1) == (v == 1), 'lemma')
                self._pairs('pow', q, [t], v, q > 0)
            self.apps[key] = v
        return self.apps[key]

    def fn_lambertw(self, t, logarg=False):
        """the principal Lambert W of t > 0 (logarg: of exp(t)): w > 0 with w exp(w) = t
        (w + log w = t)"""
        fn = 'lambertwlog' if logarg else 'lambertw'
        key = (fn, self._key(t))
        if key not in self.apps:
            old = self._findapp(fn, [t])
            if old is not None:
                self.apps[key] = old
        if key not in self.apps:
            v = self._define(fn, [t], 0, None)
            self.add(v > R(0), 'lemma')
            # exp(w) = t / w: fn_exp takes sums with w apart
            if not logarg:
                self.add(v <= t, 'lemma')
            self.apps[key] = v
        return self.apps[key]

    def fn_erf(self, t):
        key = ('erf', self._key(t))
        if key not in self.apps:
            old = self._findapp('erf', [t])
            if old is not None:
                self.apps[key] = old
        if key not in self.apps:
            v = self._define('erf', [t], -1, 1)
            self.add(z3.And(v > -1, v < 1, (t > 0) == (v > 0), (t < 0) == (v < 0)), 'lemma')
            self._pairs('erf', None, [t], v, True)
            self.apps[key] = v
        return self.apps[key]

    def _pairs(self, fn, extra, args, v, increasing, limit=8):
        lst = self.byfn[(fn, extra)]
        if len(lst) > limit:
            lst = lst[:2] + lst[-limit:]
        for (a,), w in lst:
            if w.eq(v):
                continue
            self.add((a < args[0]) == ((w < v) if increasing else (w > v)), 'lemma')
            self.add((a == args[0]) == (w == v), 'lemma')

    def fn_uf(self, name, args, lo=None, hi=None):
        key = ('uf', name, tuple(self._key(a) for a in args))
        if key not in self.apps:
            old = self._findapp('uf:' + name, args, (lo, hi))
            if old is not None:
                self.apps[key] = old
        if key not in self.apps:
            v = self._define('uf:' + name, args, lo, hi, extra=(lo, hi))
            for a2, w in self.byfn[('uf:' + name, (lo, hi))][:-1]:
                self.add(z3.Implies(z3.And(*[x == y for x, y in zip(args, a2)]), v == w), 'lemma')
            self.apps[key] = v
        return self.apps[key]

    # -------------------------------------------------------------- angles
    def usepi(self):
        self.pi_used = True

    def todeg(self, t):
        """term (radians) -> term (degrees), cancelling pi"""
        self.usepi()
        try:
            p = poly(t)
        except core.PolyTooBig:
            return t * 180 / PI
        q = p_mul(p, {((PI_MONO_ID, -1),): Fraction(180)})
        if all(all(i != PI_MONO_ID for i, _ in m) for m in q):
            # keep structure when possible
            return p_term(q)
        return t * 180 / PI

    def degpoly(self, t):
        self.usepi()
        try:
            p = poly(t)
        except core.PolyTooBig:
            return {((self._atomid(t * 180 / PI), 1),): Fraction(1)}
        return p_mul(p, {((PI_MONO_ID, -1),): Fraction(180)})

    def _atomid(self, t):
        ATOMS[t.get_id()] = t
        return t.get_id()

    def sincos(self, p):
        """(sin, cos) terms of a degree polynomial"""
        const = Fraction(0)
        parts = []
        for m, c in sorted(p.items(), key=lambda kv: kv[0]):
            if not m:
                const = c
                continue
            intm = all(e > 0 and z3.is_const(ATOMS[i]) and
                       ATOMS[i].decl().name() in self.intvars for i, e in m)
            if intm and c % 360 == 0:
                continue
            parts.append((m, c))
        s, c = self._constsc(const)
        s, c = R(s) if isinstance(s, (int, Fraction)) else s, R(c) if isinstance(c, (int, Fraction)) else c
        for m, k in parts:
            bs, bc = self._base(m, k)
            s, c = (core.mkadd(core.mkmul(s, bc), core.mkmul(c, bs)),
                    core.mksub(core.mkmul(c, bc), core.mkmul(s, bs)))
        return s, c

    def _constsc(self, f):
        g = f % 360
        if g in EXACT_TRIG:
            return EXACT_TRIG[g]
        if g == 30 or g == 150:
            return Fraction(1, 2), self._irr('cos', g)
        if g == 60 or g == 300:
            return self._irr('sin', g), Fraction(1, 2)
        return self._irr('sin', g), self._irr('cos', g)

    def _irr(self, fn, g):
        key = (fn + 'const', g)
        if key not in self.apps:
            # values of radian literals arrive as floats: exact arc in degrees
            x = mpmath.mpf(g.numerator) / g.denominator * mpmath.pi / 180
            val = mpmath.sin(x) if fn == 'sin' else mpmath.cos(x)
            lo, hi = q12(val, False, 20), q12(val, True, 20)
            v = self._define(fn + 'd', [R(g)], lo, hi)
            self.apps[key] = v
            other = ('cos' if fn == 'sin' else 'sin') + 'const'
            if (other, g) in self.apps:
                o = self.apps[(other, g)]
                self.add(v * v + o * o == 1, 'def')
        return self.apps[key]

    def _base(self, m, k):
        """(sin, cos) of k * monomial (degrees)"""
        n, d = k.numerator, k.denominator
        s, c = self._base1(m, d)
        neg = n < 0
        n = abs(n)
        if n > 12:
            # treat the scaled monomial as its own angle
            t = p_term({m: k})
            return self.angle_sc(t)
        ss, cc = s, c
        for _ in range(n - 1):
            ss, cc = ss * c + cc * s, cc * c - ss * s
        if n > 1:
            pass
        return (core.mkneg(ss) if neg else ss), cc

    def _base1(self, m, d):
        t = p_term({m: Fraction(1, d)})
        key = (m, d)
        if key in self.trigbase:
            return self.trigbase[key][:2]
        sc = self.angle_sc(t, key)
        if d == 2:
            s1, c1 = self._base1(m, 1)
            s, c = sc
            self.add(c1 == 2 * c * c - 1, 'lemma')
            self.add(s1 == 2 * s * c, 'lemma')
        return sc

    def angle_sc(self, t, key=None, s=None, c=None):
        """register an angle (degree term) with its sine and cosine"""
        if key is None:
            p = poly(t)
            if len(p) == 1:
                (m, k), = p.items()
                key = (m, k.denominator) if abs(k.numerator) == 1 and k > 0 else (m, k)
            else:
                key = ('t', self._key(t))
        if key in self.trigbase:
            return self.trigbase[key][:2]
        if s is None:
            s = self._define('sind', [t], -1, 1)
        if c is None:
            c = self._define('cosd', [t], -1, 1)
        self.add(s * s + c * c == 1, 'def')
        self.trigbase[key] = (s, c, t)
        lo, hi = self.ival(t)
        if not isinstance(lo, float) and not isinstance(hi, float) and hi - lo < 360:
            for v, sh in ((s, 0), (c, 90)):
                if z3.is_const(v) and not z3.is_rational_value(v):
                    a, b = _sinrange(Fraction(lo) + sh, Fraction(hi) + sh)
                    n = v.decl().name()
                    l0, h0 = self.box.get(n, (-math.inf, math.inf))
                    if a > l0 or b < h0:
                        self.box[n] = (max(a, l0), min(b, h0))
                        self._ivmemo = {}
                        self.add(z3.And(v >= R(self.box[n][0]), v <= R(self.box[n][1])), 'lemma')
        self._quadrants(t, s, c)
        self._trigpairs(key)
        return s, c

    def _quadrants(self, t, s, c):
        lo, hi = self.ival(t)
        if isinstance(lo, float) or isinstance(hi, float) or hi - lo > 361:
            return
        k0, k1 = math.floor(lo / 90), math.ceil(hi / 90)
        for k in range(k0, max(k1, k0 + 1)):
            q = k % 4
            a, b = R(90 * k), R(90 * (k + 1))
            ins = z3.And(t > a, t < b)
            sp = s > 0 if q in (0, 1) else s < 0
            cp = c > 0 if q in (0, 3) else c < 0
            self.add(z3.Implies(ins, z3.And(sp, cp)), 'lemma')
        for k in range(math.ceil(lo / 90), math.floor(hi / 90) + 1):
            es, ec = EXACT_TRIG[(90 * k) % 360]
            self.add(z3.Implies(t == R(90 * k), z3.And(s == es, c == ec)), 'lemma')
        # converse on a single half turn
        if lo >= 0 and hi <= 180:
            self.add(z3.And((t < 90) == (c > 0), (t == 90) == (c == 0), (t == 0) == (c == 1),
                            (t == 180) == (c == -1)), 'lemma')
        elif lo >= -90 and hi <= 90:
            self.add(z3.And((t < 0) == (s < 0), (t == 0) == (s == 0), (t == 90) == (s == 1),
                            (t == -90) == (s == -1)), 'lemma')
        elif lo >= -180 and hi <= 180:
            self.add(z3.And(z3.Implies(s > 0, z3.And(t > 0, t < 180)), z3.Implies(s < 0, t < 0),
                            (t == 0) == (c == 1)), 'lemma')
            self.add(z3.Implies(z3.And(s >= 0, c >= 0), z3.And(t >= 0, t <= 90)), 'lemma')
            self.add(z3.Implies(z3.And(s <= 0, c > 0), z3.And(t >= -90, t <= 0)), 'lemma')

    def _trigpairs(self, key, limit=6):
        """monotonicity between angles known to lie in [0, 180] / [-90, 90]"""
        s, c, t = self.trigbase[key]
        lo, hi = self.ival(t)
        if isinstance(lo, float) or isinstance(hi, float):
            return
        n = 0
        for k2, (s2, c2, t2) in list(self.trigbase.items()):
            if k2 == key:
                continue
            l2, h2 = self.ival(t2)
            if isinstance(l2, float) or isinstance(h2, float):
                continue
            if lo >= 0 and hi <= 180 and l2 >= 0 and h2 <= 180:
                self.add(z3.And((t < t2) == (c > c2), (t == t2) == (c == c2)), 'lemma')
            elif lo >= -90 and hi <= 90 and l2 >= -90 and h2 <= 90:
                self.add(z3.And((t < t2) == (s < s2), (t == t2) == (s == s2)), 'lemma')
            elif max(hi, h2) - min(lo, l2) <= 360:
                self.add(z3.Implies(t == t2, z3.And(s == s2, c == c2)), 'lemma')
                if max(hi, h2) - min(lo, l2) < 360:
                    self.add(z3.Implies(z3.And(s == s2, c == c2), t == t2), 'lemma')
            n += 1
            if n >= limit:
                break

    def trig_threshold(self, t, thr):
        """link comparisons of an angle in [0,180] (or [-90,90]) with a constant"""
        for key, (s, c, tt) in self.trigbase.items():
            if tt.eq(t):
                lo, hi = self.ival(t)
                cs, cc = self._constsc(Fraction(thr))
                cs = R(cs) if isinstance(cs, (int, Fraction)) else cs
                cc = R(cc) if isinstance(cc, (int, Fraction)) else cc
                if not isinstance(lo, float) and lo >= 0 and hi <= 180:
                    self.add((t < R(thr)) == (c > cc), 'lemma')
                    self.add((t == R(thr)) == (c == cc), 'lemma')
                elif not isinstance(lo, float) and lo >= -90 and hi <= 90:
                    self.add((t < R(thr)) == (s < cs), 'lemma')
                    self.add((t == R(thr)) == (s == cs), 'lemma')

    def _sc_of_known(self, x, kind):
        """detect arccos(cos(angle)) for an angle inside the principal range"""
        i = x.get_id()
        for key, (s, c, t) in self.trigbase.items():
            if kind == 'c' and c.eq(x):
                lo, hi = self.ival(t)
                if lo >= 0 and hi <= 180:
                    return t
            if kind == 's' and s.eq(x):
                lo, hi = self.ival(t)
                if lo >= -90 and hi <= 90:
                    return t
        return None

    def fn_acosd(self, x):
        """angle in [0,180] degrees with cosine x (|x| <= 1 on this path)"""
        self.usepi()
        if z3.is_rational_value(x) and frac(x) in (-1, 0, 1):
            return R({-1: 180, 0: 90, 1: 0}[frac(x)])
        key = ('acos', self._key(x))
        if key not in self.apps:
            old = self._findapp('acosd', [x])
            if old is not None:
                self.apps[key] = old
        if key not in self.apps:
            t = self._sc_of_known(x, 'c')
            if t is None:
                t = self._define('acosd', [x], 0, 180)
                s = self.fn_sqrt(1 - x * x)
                self.angle_sc(t, (((self._atomid(t), 1),), 1), s=s, c=x)
            self.apps[key] = t
        t = self.apps[key]
        self.acosarg[t.get_id()] = (x, t)
        return t

    def fn_asind(self, x):
        self.usepi()
        if z3.is_rational_value(x) and frac(x) in (-1, 0, 1):
            return R({-1: -90, 0: 0, 1: 90}[frac(x)])
        key = ('asin', self._key(x))
        if key not in self.apps:
            old = self._findapp('asind', [x])
            if old is not None:
                self.apps[key] = old
        if key not in self.apps:
            t = self._sc_of_known(x, 's')
            if t is None:
                t = self._define('asind', [x], *self._asinbox(x))
                c = self.fn_sqrt(1 - x * x)
                self.angle_sc(t, (((self._atomid(t), 1),), 1), s=x, c=c)
                self.asinarg[t.get_id()] = (x, t)
            self.apps[key] = t
        return self.apps[key]

    def _asinbox(self, x):
        lo, hi = self.ival(x)
        lo = -90 if isinstance(lo, float) or lo <= -1 else q12(mpmath.asin(mpmath.mpf(lo.numerator) / lo.denominator) * 180 / mpmath.pi, False, 20)
        hi = 90 if isinstance(hi, float) or hi >= 1 else q12(mpmath.asin(mpmath.mpf(hi.numerator) / hi.denominator) * 180 / mpmath.pi, True, 20)
        return lo, hi

    def fn_atand(self, x):
        self.usepi()
        if z3.is_rational_value(x) and frac(x) in (-1, 0, 1):
            return R({-1: -45, 0: 0, 1: 45}[frac(x)])
        key = ('atan', self._key(x))
        if key not in self.apps:
            old = self._findapp('atand', [x])
            if old is not None:
                self.apps[key] = old
        if key not in self.apps:
            t = self._define('atand', [x], -90, 90)
            self.add(z3.And(t > -90, t < 90), 'def')
            h = self.fn_sqrt(1 + x * x)
            s = self._define('sind', [t], -1, 1)
            c = self._define('cosd', [t], 0, 1)
            self.add(z3.And(c > 0, s == c * x), 'def')
            self.ratdef[s.decl().name()] = x / h
            self.ratdef[c.decl().name()] = 1 / h
            self.angle_sc(t, (((self._atomid(t), 1),), 1), s=s, c=c)
            self.add(z3.And((x > 0) == (t > 0), (x == 0) == (t == 0), (x < 1) == (t < 45),
                            (x > -1) == (t > -45)), 'lemma')
            self.apps[key] = t
        return self.apps[key]

    def fn_atan2d(self, y, x):
        self.usepi()
        key = ('atan2', self._key(y), self._key(x))
        if key not in self.apps:
            old = self._findapp('atan2d', [y, x])
            if old is not None:
                self.apps[key] = old
        if key not in self.apps:
            up = self.sgn(y) == 1
            t = self._define('atan2d', [y, x], 0 if up else -180, 180)
            self.add(t > -180, 'def')
            r = self.fn_sqrt(x * x + y * y)
            s = self._define('sind', [t], -1, 1)
            c = self._define('cosd', [t], -1, 1)
            self.add(z3.And(r > 0, r * r == x * x + y * y, r * c == x, r * s == y), 'def')
            self.ratdef[s.decl().name()] = y / r
            self.ratdef[c.decl().name()] = x / r
            self.angle_sc(t, (((self._atomid(t), 1),), 1), s=s, c=c)
            self.add(z3.And((y > 0) == z3.And(t > 0, t < 180), (y < 0) == (t < 0),
                            (y == 0) == z3.Or(t == 0, t == 180),
                            z3.Implies(x > 0, z3.And(t > -90, t < 90)),
                            z3.Implies(x < 0, z3.Or(t > 90, t < -90)),
                            z3.Implies(x == 0, z3.Or(t == 90, t == -90))), 'lemma')
            self.apps[key] = t
        return self.apps[key]
