"""Deciding obligations: normalisation, slicing, z3 / cvc5 portfolio, and
counterexample-guided refinement of the transcendental lemmas."""
import math
import os
import subprocess
import tempfile
import time
from fractions import Fraction
import mpmath
import z3
from . import core
from .core import R, PI, frac
from .ctx import STATS, PI_LO, PI_HI, q12, simp_rat, term_vars
from .numeric import numfrac


def _slice(cons, goal, defs, full=False):
    """constraints sharing variables (transitively) with the goal"""
    vs = set(term_vars(goal))
    rest = list(cons)
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for c in rest:
            cv = term_vars(c)
            if not cv or cv & vs:
                out.append(c)
                if not cv <= vs:
                    vs |= cv
                    changed = True
            else:
                keep.append(c)
        rest = keep
    return out


def _near(cons, kinds, goal, hops=0):
    """constraints whose variables are all in the goal's variables (+ hops)"""
    vs = set(term_vars(goal))
    for _ in range(hops):
        add = set()
        for c in cons:
            cv = term_vars(c)
            if cv & vs and len(cv) <= 6:
                add |= cv
        vs |= add
    return [c for c in cons if term_vars(c) <= vs]


def check(cons, ms, tactic=None, seed=0):
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', int(ms))
    if seed:
        try:
            s.set('random_seed', seed)
        except z3.Z3Exception:
            pass
    s.add(*cons)
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS['queries'] += 1
    STATS['solver_s'] += time.time() - t0
    if r == z3.sat:
        try:
            m = s.model()
        except z3.Z3Exception:
            return 'unknown', None
        STATS['sat'] += 1
        return 'sat', m
    if r == z3.unsat:
        STATS['unsat'] += 1
        return 'unsat', None
    STATS['unknown'] += 1
    return 'unknown', None


def check_cvc5(cons, ms):
    """unsat / unknown only (models are taken from z3)"""
    s = z3.Solver()
    s.add(*cons)
    txt = s.to_smt2()
    txt = '(set-logic QF_NRA)\n' + '\n'.join(
        l for l in txt.splitlines() if not l.startswith('(set-info') and not l.startswith('; '))
    t0 = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % ms, f.name], capture_output=True, text=True,
                           timeout=ms / 1000 + 10)
        out = p.stdout.strip().splitlines()
        r = out[0] if out else 'unknown'
    except Exception:
        r = 'unknown'
    finally:
        os.unlink(f.name)
    STATS['queries'] += 1
    STATS['solver_s'] += time.time() - t0
    if r == 'unsat':
        STATS['unsat'] += 1
        return 'unsat', None
    return 'unknown', None


def pi_bounds():
    return [PI > R(PI_LO), PI < R(PI_HI)]


def decide(ctx, neg, deadline, cons=None, want_model=True, budget=(2000, 8000, 20000)):
    """satisfiability of ctx.cons & neg"""
    cons = list(ctx.cons) if cons is None else cons
    if ctx.pi_used:
        cons = cons + pi_bounds()
    # 1. only what speaks about the goal's own variables
    near = _near(cons, None, neg)
    left = lambda ms: max(200, min(ms, (deadline - time.time()) * 1000))
    r, m = check(near + [neg], left(budget[0]))
    if r == 'unsat':
        return r, None
    near2 = _near(cons, None, neg, 1)
    if len(near2) > len(near):
        r, m = check(near2 + [neg], left(budget[0]))
        if r == 'unsat':
            return r, None
    full = _slice(cons, neg, ctx.defs)
    r, m = check(full + [neg], left(budget[1]))
    if r == 'unsat':
        return r, None
    if r == 'sat':
        if len(full) < len(cons):
            r2, m2 = check(cons + [neg], left(budget[1]))
            if r2 == 'unsat':
                return r2, None
            if r2 == 'sat':
                return r2, m2
            return 'unknown', m
        return r, m
    if time.time() < deadline:
        r2, m2 = check(full + [neg], left(budget[1]), 'qfnra-nlsat')
        if r2 == 'unsat':
            return r2, None
        if r2 == 'sat' and len(full) == len(cons):
            return r2, m2
    if time.time() < deadline:
        for sub in (near, near2, full):
            r2, _ = check_cvc5(sub + [neg], left(budget[2] / 2))
            if r2 == 'unsat':
                return r2, None
            if time.time() > deadline:
                break
    if time.time() < deadline:
        r2, m2 = check(full + [neg], left(budget[2]), seed=7)
        if r2 != 'unknown' and (r2 == 'unsat' or len(full) == len(cons)):
            return r2, m2
    return 'unknown', None


# ------------------------------------------------------------- refinement
def _mp(f):
    return mpmath.mpf(f.numerator) / f.denominator


def refine(ctx, m, tol=mpmath.mpf(10) ** -9):
    """lemmas excluding model values inconsistent with the true functions"""
    lem = []
    pos = lambda t: numfrac(m.eval(t, model_completion=True))
    items = []
    for (fn, extra), lst in ctx.byfn.items():
        for args, v in lst:
            items.append((fn, extra, args, v))
    for fn, extra, args, v in items:
        if fn in ('exp', 'log', 'pow', 'erf'):
            x, y = pos(args[0]), pos(v)
            if x is None or y is None:
                continue
            X, Y = args[0], v
            if fn == 'log':
                if x <= 0:
                    continue
                # exp(v) = arg
                p = simp_rat(y) if abs(y) < 300 else Fraction(300 if y > 0 else -300)
                tru = mpmath.exp(_mp(y)) if abs(y) < 700 else None
                if tru is not None and abs(tru - _mp(x)) <= tol * (1 + abs(tru)):
                    continue
                lem += _explemma(ctx, v.get_id(), v, args[0], p)
                if x > 0:
                    p2 = Fraction(str(mpmath.nstr(mpmath.log(_mp(x)), 7))) if _mp(x) > 0 else p
                    lem += _explemma(ctx, v.get_id(), v, args[0], p2)
            elif fn == 'exp':
                if abs(x) > 600:
                    p = Fraction(600 if x > 0 else -600)
                else:
                    p = simp_rat(x)
                    tru = mpmath.exp(_mp(x))
                    if abs(tru - _mp(y)) <= tol * (1 + abs(tru)):
                        continue
                lem += _explemma(ctx, v.get_id(), X, Y, p)
            elif fn == 'pow':
                if x <= 0:
                    continue
                q = extra
                p = simp_rat(x)
                if p <= 0:
                    p = x
                tru = mpmath.power(_mp(p), _mp(q))
                if abs(mpmath.power(_mp(x), _mp(q)) - _mp(y)) <= tol * (1 + abs(tru)):
                    continue
                lo, hi = q12(tru, False), q12(tru, True)
                inc = q > 0
                lem.append(z3.Implies(X <= R(p), Y <= R(hi) if inc else Y >= R(lo)))
                lem.append(z3.Implies(X >= R(p), Y >= R(lo) if inc else Y <= R(hi)))
                sl = _mp(q) * mpmath.power(_mp(p), _mp(q) - 1)
                lem += _tangent(X, Y, p, tru, sl, convex=(q > 1 or q < 0))
            elif fn == 'erf':
                p = simp_rat(x)
                tru = mpmath.erf(_mp(p))
                if abs(mpmath.erf(_mp(x)) - _mp(y)) <= tol:
                    continue
                lem.append(z3.Implies(X <= R(p), Y <= R(q12(tru, True))))
                lem.append(z3.Implies(X >= R(p), Y >= R(q12(tru, False))))
    for key, (s, c, t) in ctx.trigbase.items():
        d = pos(t)
        sv, cv = pos(s), pos(c)
        if d is None or sv is None or cv is None:
            continue
        rad = _mp(d) * mpmath.pi / 180
        ts, tc = mpmath.sin(rad), mpmath.cos(rad)
        if abs(ts - _mp(sv)) <= 1e-9 and abs(tc - _mp(cv)) <= 1e-9:
            continue
        pts = [simp_rat(d)]
        # the angle the (s, c) pair stands for, in the turn of d
        a = mpmath.atan2(_mp(sv), _mp(cv)) * 180 / mpmath.pi
        a = a + 360 * mpmath.floor((_mp(d) - a) / 360 + mpmath.mpf(1) / 2)
        pts.append(simp_rat(Fraction(str(mpmath.nstr(a, 12)))))
        pts.append(simp_rat((pts[0] + pts[1]) / 2))
        for p in pts:
            lem += _triglemma(t, s, c, p)
    for n, (fn, args, extra) in ctx.defs.items():
        if fn == 'floor':
            x, y = pos(args[0]), pos(z3.Real(n))
            if x is not None and y is not None and y.denominator != 1:
                v = z3.Real(n)
                f = math.floor(y)
                lem.append(z3.Or(v <= R(f), v >= R(f + 1)))
    return lem


def _tangent(X, Y, p, tru, sl, convex):
    """Y >= f(p)+f'(p)(X-p) (convex) or <= (concave), outward rounded"""
    s_lo, s_hi = q12(sl, False), q12(sl, True)
    d = X - R(p)
    if convex:
        lo = R(q12(tru, False))
        return [z3.Implies(d >= 0, Y >= lo + R(s_lo) * d), z3.Implies(d <= 0, Y >= lo + R(s_hi) * d)]
    hi = R(q12(tru, True))
    return [z3.Implies(d >= 0, Y <= hi + R(s_hi) * d), z3.Implies(d <= 0, Y <= hi + R(s_lo) * d)]


def _explemma(ctx, key, X, Y, p):
    tru = mpmath.exp(_mp(p))
    lo, hi = q12(tru, False), q12(tru, True)
    out = [z3.Implies(X <= R(p), Y <= R(hi)), z3.Implies(X >= R(p), Y >= R(lo))]
    out += _tangent(X, Y, p, tru, tru, True)
    pts = ctx.points.setdefault(key, [])
    for q in sorted(pts, key=lambda z: abs(z - p))[:2]:
        a, b = min(p, q), max(p, q)
        if a == b:
            continue
        ea, eb = q12(mpmath.exp(_mp(a)), True), q12(mpmath.exp(_mp(b)), True)
        out.append(z3.Implies(z3.And(X >= R(a), X <= R(b)),
                              Y <= R(ea) + R((eb - ea) / (b - a)) * (X - R(a))))
    pts.append(p)
    return out


def _triglemma(t, s, c, p):
    k = math.floor(p / 90)
    if p == 90 * k:
        return []
    rad = _mp(p) * mpmath.pi / 180
    ts, tc = mpmath.sin(rad), mpmath.cos(rad)
    sl, sh, cl, ch = q12(ts, False), q12(ts, True), q12(tc, False), q12(tc, True)
    q = k % 4
    lo = z3.And(t >= R(90 * k), t <= R(p))
    hi = z3.And(t >= R(p), t <= R(90 * (k + 1)))
    cdec = q in (0, 1)
    sinc = q in (0, 3)
    out = [
        z3.Implies(lo, z3.And(c >= R(cl) if cdec else c <= R(ch), s <= R(sh) if sinc else s >= R(sl))),
        z3.Implies(hi, z3.And(c <= R(ch) if cdec else c >= R(cl), s >= R(sl) if sinc else s <= R(sh)))]
    # tangents: in each quadrant sine/cosine are concave where positive, convex where negative
    ins = z3.And(t >= R(90 * k), t <= R(90 * (k + 1)))
    deg = mpmath.pi / 180
    for y, tv, slope in ((s, ts, tc * deg), (c, tc, -ts * deg)):
        out += [z3.Implies(ins, e) for e in _tangent(t, y, p, tv, slope, convex=tv < 0)]
    return out
