"""Harness execution: exhaustive path exploration, obligations, replay."""
import math
import os
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction
import numpy as np
import pandas as pd
import z3
from . import loader
from . import core, symnp, solve, stubs, sympd
from .core import (SV, SBool, R, T, issym, Unsupported, PathLimit, Infeasible, isspecial)
from .ctx import Ctx, STATS
from .numeric import evalnum, numval, NoNumeric, ufnum

RTOL, ATOL = 1e-6, 1e-8


class AssumeFail(Exception):
    pass


class MissingInput(Exception):
    pass


def _flat(x):
    """flatten containers to a list of scalars"""
    if isinstance(x, (pd.Series, pd.DataFrame, pd.Index)):
        x = x.to_numpy()
    if isinstance(x, np.ndarray):
        return list(x.reshape(-1)) if x.dtype != object else list(x.view(np.ndarray).reshape(-1))
    if isinstance(x, (list, tuple)):
        return [y for e in x for y in _flat(e)]
    return [x]


class BaseM:
    def mod(self, name):
        return self.mods['pvlib.' + name if name else 'pvlib']

    def reals(self, prefix, n, lo=None, hi=None, **k):
        return [self.real('%s%d' % (prefix, i), lo, hi, **k) for i in range(n)]

    def _pairs(self, a, b):
        fa, fb = _flat(a), _flat(b)
        if len(fa) == 1 and len(fb) > 1:
            fa = fa * len(fb)
        if len(fb) == 1 and len(fa) > 1:
            fb = fb * len(fa)
        if len(fa) != len(fb):
            return None
        return list(zip(fa, fb))

    def item(self, x):
        """the single value of a length-1 container (scalars pass through)"""
        if isinstance(x, (np.ndarray, pd.Series)):
            v = _flat(x)
            if len(v) != 1:
                raise ValueError('not a single value: %r' % (x,))
            return v[0]
        return x

    def optim(self, hook):
        """hook(kind, func, start, fprime, args, options) stands for every scipy root or minimum finder"""
        self.unhook = stubs.install(self.mods, hook)

    def close(self):
        for mod, attr, v in reversed(self.unstub):
            setattr(mod, attr, v)
        if getattr(self, 'unhook', None) is not None:
            for mod, attr, v in reversed(self.unhook):
                setattr(mod, attr, v)
            stubs.HOOK.pop()
            self.unhook = None

    def between(self, label, x, lo, hi, tol=1e-9):
        self.le(label + ' >= %s' % (lo if core.is_num(lo) else 'lower'), lo, x, tol)
        self.le(label + ' <= %s' % (hi if core.is_num(hi) else 'upper'), x, hi, tol)

    def ge(self, label, a, b, tol=1e-9):
        self.le(label, b, a, tol)

    def raises(self, label, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            self.true(label, True)
            return
        self.true(label, False)


class SymM(BaseM):
    symbolic = True

    def __init__(self, ctx, run):
        self.ctx = ctx
        self.run = run
        self.np = symnp.NP
        self.pv = loader.SYM
        self.mods = loader.SYM_MODS
        self.obsv = []
        self.unstub = []

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        return self.ctx.input(name, lo, hi, lo_open, hi_open)

    def int(self, name, lo, hi):
        return self.ctx.input(name, lo, hi, integer=True)

    def choice(self, name, options):
        options = list(options)
        i = self.ctx.fork_choice(len(options)) if len(options) > 1 else 0
        self.ctx.choices[name] = i
        return options[i]

    def flag(self, name):
        return self.choice(name, [False, True])

    def arr(self, xs):
        return symnp.toobj(list(xs)) if any(symnp._hassym(x) for x in xs) else np.array(xs, dtype=float)

    def assume(self, c):
        if isinstance(c, SBool):
            self.ctx.add(c.b, 'dom')
            # an assumption is not a fork, but it must be satisfiable
        elif not c:
            raise Infeasible

    def stub(self, modname, attr, fn):
        mod = self.mod(modname)
        self.unstub.append((mod, attr, getattr(mod, attr)))
        setattr(mod, attr, fn)

    def uf(self, name, *args, lo=None, hi=None):
        """uninterpreted function of the arguments"""
        if any(isspecial(a) for a in args):
            return core.NAN
        self.run.uses_uf = True
        return SV(self.ctx.fn_uf(name, [T(a) for a in args], lo, hi))

    def total_arcsin(self):
        """arguments of arcsin are sines of altitudes: no domain check, arcsin as an uninterpreted function (the real one on replay)"""
        self.ctx.asin_uf = True

    def link(self, x, *thr):
        """relate comparisons of angle x (degrees) with constants to its cosine"""
        for t in thr:
            self.ctx.trig_threshold(T(x), Fraction(t))

    def cosd(self, x):
        return core.cos(core.radians(x)) if issym(x) else float(np.cos(np.radians(x)))

    def sind(self, x):
        return core.sin(core.radians(x)) if issym(x) else float(np.sin(np.radians(x)))

    def exp(self, x):
        """the exponential without overflow"""
        return SV(self.ctx.fn_exp(T(x))) if issym(x) else np.exp(x)

    def lambertw(self, x, orig=None, logarg=False):
        """Lambert W by its defining equation (on replay: the real implementation)"""
        return symnp._map(lambda e: SV(self.ctx.fn_lambertw(T(e), logarg)), x)

    def expsum(self, x, y):
        """lemma exp(x) exp(y) = exp(x + y)"""
        a, b, c = self.np.exp(x), self.np.exp(y), self.np.exp(x + y)
        self.ctx.add(T(a) * T(b) == T(c), 'lemma')

    def square(self, *xs):
        """hint: a sum of squares that may witness |N| <= sqrt(S) through S - N^2 = sum x^2, or
        S > 0 through S = sum x^2 with some x non-zero (the identities are checked)"""
        self.ctx.squares.append([T(x) for x in xs])

    def have(self, label, c):
        """prove c, then use it as a lemma on the rest of the path"""
        if not isinstance(c, SBool):
            return self.true(label, c)
        n = self.run.res['discharged']
        rp = self.run._replaying(self.ctx)
        if self.ctx.known(c.b) is not True:
            self.run.obligation(self.ctx, label, [z3.Not(c.b)])
            if rp or self.run.res['discharged'] > n:
                self.ctx.add(c.b, 'lemma')
                self.ctx._cmpnote(c.b)
                self.ctx._tighten(c.b)

    # ---- obligations
    def true(self, label, c):
        if isinstance(c, (list, tuple, np.ndarray, pd.Series)):
            for e in _flat(c):
                self.true(label, e)
            return
        if isinstance(c, SBool):
            self.run.obligation(self.ctx, label, [z3.Not(c.b)])
        elif bool(c):
            self.run.trivial(self.ctx, label)
        else:
            self.run.obligation(self.ctx, label, [z3.BoolVal(True)])

    def eq(self, label, a, b, rtol=RTOL, atol=ATOL):
        ps = self._pairs(a, b)
        if ps is None:
            self.run.obligation(self.ctx, label + ' (length)', [z3.BoolVal(True)])
            return
        for x, y in ps:
            self._eq1(label, x, y, rtol, atol)

    def _eq1(self, label, x, y, rtol, atol):
        if isinstance(x, (bool, np.bool_, SBool)) and isinstance(y, (bool, np.bool_, SBool)):
            c = core.eq(x, y) if issym(x) or issym(y) else bool(x) == bool(y)
            return self.true(label, c)
        if x is None or y is None or isinstance(x, str) or isinstance(y, str):
            return self.true(label, x is y or x == y)
        if isspecial(x) or isspecial(y) or (not issym(x) and not issym(y)):
            ok = (core.isnan(x) and core.isnan(y)) or (not issym(x) and not issym(y) and (
                x == y or abs(x - y) <= atol + rtol * abs(y)))
            return self.true(label, bool(ok))
        tx, ty = T(x), T(y)
        if tx.eq(ty):
            return self.run.trivial(self.ctx, label, 'identical terms')
        d = core.mksub(tx, ty)
        how = self._normal_equal(d, tx, ty, atol)
        if how:
            return self.run.trivial(self.ctx, label, how)
        if self.ctx.known(core.simp_bool(tx == ty)) is True:
            return self.run.trivial(self.ctx, label, 'path condition')
        A, B = R(atol), R(rtol)
        if rtol:
            negs = [z3.And(d > A + B * ty, d > A - B * ty), z3.And(-d > A + B * ty, -d > A - B * ty)]
        else:
            negs = [d > A, -d > A]
        self.run.obligation(self.ctx, label, negs, exact=(d != 0))

    def _normal_equal(self, d, tx, ty, atol):
        try:
            n, den = core.rat(d)
            if not n or not self.ctx.reduce(n):
                return 'normal form'
            if self.ctx.hasite(tx) and self.ctx.hasite(ty) and self.ctx.same(tx, ty):
                return 'normal form of conditionals'
            if len(n) < 300:
                lo, hi = self.ctx.ival(core.p_term(n))
                dl, dh = self.ctx.ival(core.p_term(den))
                if not any(isinstance(v, float) for v in (lo, hi)) and (dl > 0 or dh < 0):
                    dm = dl if dl > 0 else -dh
                    if max(abs(lo), abs(hi)) <= Fraction(atol) * dm:
                        return 'interval bound on the normal form'
        except (core.PolyTooBig, RecursionError, OverflowError):
            pass
        return None

    def le(self, label, a, b, tol=1e-9):
        ps = self._pairs(a, b)
        if ps is None:
            self.run.obligation(self.ctx, label + ' (length)', [z3.BoolVal(True)])
            return
        for x, y in ps:
            if core.isnan(x) or core.isnan(y):
                self.run.obligation(self.ctx, label + ' (NaN)', [z3.BoolVal(True)])
            elif isspecial(x) or isspecial(y) or (not issym(x) and not issym(y)):
                ok = (not issym(x) and x == -math.inf) or (not issym(y) and y == math.inf) or \
                     (not issym(x) and not issym(y) and x <= y + tol)
                self.true(label, bool(ok))
            else:
                if self.ctx.known(core.simp_bool(T(x) <= T(y))) is True:
                    self.run.trivial(self.ctx, label, 'path condition')
                    continue
                d = core.mksub(T(y), T(x))
                if self.ctx.sgn(d) == 1:
                    self.run.trivial(self.ctx, label, 'sign rules')
                    continue
                self.run.obligation(self.ctx, label, [T(x) > T(y) + R(tol)])

    def nan(self, label, x):
        for e in _flat(x):
            self.true(label, core.isnan(e))

    def notnan(self, label, x):
        for e in _flat(x):
            self.true(label, not core.isnan(e))

    def finite(self, label, x):
        for e in _flat(x):
            self.true(label, not isspecial(e))

    def obs(self, name, x):
        for i, e in enumerate(_flat(x)):
            self.obsv.append(('%s[%d]' % (name, i), e))

    def isnan(self, x):
        return core.isnan(self.item(x))


class RealM(BaseM):
    symbolic = False

    def __init__(self, inputs, choices):
        self.inputs = inputs
        self.choices = choices
        self.np = np
        self.pv = loader.REAL
        self.mods = loader.REAL_MODS
        self.failures = []
        self.checked = []
        self.obsv = []
        self.unstub = []
        self.used_uf = False

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        if name not in self.inputs:
            raise MissingInput(name)
        v = float(self.inputs[name])
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        if lo_open and v <= lo:
            v = math.nextafter(float(lo), math.inf)
        if hi_open and v >= hi:
            v = math.nextafter(float(hi), -math.inf)
        return np.float64(v)

    def int(self, name, lo, hi):
        v = self.real(name, lo, hi)
        return np.float64(round(v))

    def choice(self, name, options):
        return list(options)[self.choices[name]] if name in self.choices else list(options)[0]

    def flag(self, name):
        return self.choice(name, [False, True])

    def arr(self, xs):
        return np.array(xs, dtype=float)

    def assume(self, c):
        if not c:
            raise AssumeFail

    def stub(self, modname, attr, fn):
        mod = self.mod(modname)
        self.unstub.append((mod, attr, getattr(mod, attr)))
        setattr(mod, attr, fn)

    def uf(self, name, *args, lo=None, hi=None):
        if any(math.isnan(a) for a in args):
            return np.float64('nan')
        return np.float64(ufnum(name, [float(a) for a in args], lo, hi))

    def link(self, x, *thr):
        pass

    def total_arcsin(self):
        pass

    def square(self, *xs):
        pass

    def expsum(self, x, y):
        pass

    def exp(self, x):
        return np.exp(x)

    def lambertw(self, x, orig=None, logarg=False):
        return orig(x)

    def have(self, label, c):
        self.true(label, c)

    def cosd(self, x):
        return np.cos(np.radians(x))

    def sind(self, x):
        return np.sin(np.radians(x))

    def true(self, label, c):
        ok = all(bool(e) for e in _flat(c))
        self.checked.append(label)
        if not ok:
            self.failures.append((label, 'false'))

    def eq(self, label, a, b, rtol=RTOL, atol=ATOL):
        self.checked.append(label)
        ps = self._pairs(a, b)
        if ps is None:
            self.failures.append((label, 'length %d != %d' % (len(_flat(a)), len(_flat(b)))))
            return
        for x, y in ps:
            if x is None or y is None or isinstance(x, str) or isinstance(y, str):
                if not (x is y or x == y):
                    self.failures.append((label, '%r != %r' % (x, y)))
                continue
            x, y = float(x), float(y)
            if math.isnan(x) and math.isnan(y):
                continue
            if x == y:
                continue
            if not (abs(x - y) <= atol + rtol * abs(y)):
                self.failures.append((label, '%r != %r' % (x, y)))

    def le(self, label, a, b, tol=1e-9):
        self.checked.append(label)
        ps = self._pairs(a, b)
        if ps is None:
            self.failures.append((label, 'length'))
            return
        for x, y in ps:
            if not (float(x) <= float(y) + tol):
                self.failures.append((label, '%r > %r' % (float(x), float(y))))

    def nan(self, label, x):
        self.checked.append(label)
        for e in _flat(x):
            if not math.isnan(e):
                self.failures.append((label, '%r is not NaN' % (float(e),)))

    def notnan(self, label, x):
        self.checked.append(label)
        for e in _flat(x):
            if math.isnan(e):
                self.failures.append((label, 'NaN'))

    def finite(self, label, x):
        self.checked.append(label)
        for e in _flat(x):
            if not math.isfinite(e):
                self.failures.append((label, '%r' % e))

    def obs(self, name, x):
        for i, e in enumerate(_flat(x)):
            self.obsv.append(('%s[%d]' % (name, i), e))

    def isnan(self, x):
        x = self.item(x)
        return x is not None and isinstance(x, (float, np.floating)) and math.isnan(x)


def replay(h, inputs, choices, params):
    """run the harness on the untouched code. -> (failures, obs, status)"""
    loader.activate('real')
    m = RealM(inputs, choices)
    core_ctx = core.CTX
    core.CTX = None
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            h(m, **params)
        return m.failures, m.obsv, 'ok'
    except AssumeFail:
        return [], m.obsv, 'assume'
    except MissingInput as e:
        return [], m.obsv, 'missing ' + str(e)
    except Exception as e:
        # later statements did not run; failures recorded so far still count
        return m.failures + [('exception', '%s: %s' % (type(e).__name__, str(e)[:200]))], m.obsv, 'raised'
    finally:
        m.close()
        core.CTX = core_ctx
        loader.activate('sym')


class Run:
    """one harness, all paths"""

    def __init__(self, name, h, params=None, merge=False, max_paths=400, time_limit=200,
                 max_decisions=400, feas_ms=1500, floor_forks=12, int_floor=False,
                 budget=(2000, 8000, 20000), cegar=12, validate=True, seed=1,
                 stop_on_violation=True, nsample=400, allow_exc=(), presample=0, split=None, numpi=False, expinf=False):
        self.numpi = numpi
        self.expinf = expinf
        self.name, self.h, self.params = name, h, params or {}
        self.opts = dict(merge=merge, max_decisions=max_decisions, feas_ms=feas_ms,
                         floor_forks=floor_forks, int_floor=int_floor, nsample=nsample, seed=seed, expinf=expinf)
        self.max_paths, self.time_limit = max_paths, time_limit
        self.budget, self.cegar, self.validate = budget, cegar, validate
        self.seed = seed
        self.stop = stop_on_violation
        self.allow_exc = allow_exc
        self.presample = presample
        self.uses_uf = False
        self.res = dict(name=name, paths=0, infeasible=0, decisions=0, forks=0, obligations=0,
                        discharged=0, trivial=0, by={}, violations=[], inconclusive=[], labels={},
                        validated=0, validation_skipped=0, validation_errors=[], witnesses=0,
                        refinements=0, spurious=0, samples=[], error=None, raised={})
        self.t0 = time.time()
        self.deadline = self.t0 + time_limit
        self._seen = set()

    # ------------------------------------------------------------ obligations
    def trivial(self, ctx, label, how='concrete'):
        if self._replaying(ctx):
            return
        self.res['obligations'] += 1
        self.res['discharged'] += 1
        self.res['trivial'] += 1
        self.res['by'][how] = self.res['by'].get(how, 0) + 1
        self.res['labels'][label] = self.res['labels'].get(label, 0) + 1

    def _replaying(self, ctx):
        # obligations met while re-executing an already explored prefix
        return ctx.pos < len(ctx.prefix)

    def obligation(self, ctx, label, negs, exact=None):
        if self._replaying(ctx):
            return
        self.res['obligations'] += 1
        self.res['labels'][label] = self.res['labels'].get(label, 0) + 1
        if any(v['label'] == label for v in self.res['violations']) and self.stop:
            return
        ok = True
        for neg in negs:
            if not self._prove(ctx, label, neg):
                ok = False
                break
        if ok:
            self.res['discharged'] += 1
            self.res['by']['solver'] = self.res['by'].get('solver', 0) + 1

    def _prove(self, ctx, label, neg):
        # a concrete point of this path that already refutes the obligation?
        if ctx.numok and ctx.alive.any():
            sv = ctx.sval(neg)
            if sv is not None:
                bad = np.flatnonzero(sv.astype(bool) & ctx.alive)
                for i in bad[:3]:
                    if self.try_replay(ctx, label, self.sample_inputs(ctx, i)):
                        return False
        for it in range(self.cegar + 1):
            if time.time() > self.deadline:
                self._inc(label, 'job time limit')
                return False
            r, m = solve.decide(ctx, neg, min(self.deadline, time.time() + 90), budget=self.budget)
            if r == 'unsat':
                return True
            if m is not None:
                inp = self.model_inputs(ctx, m)
                if self.try_replay(ctx, label, inp):
                    return False
            if r == 'unknown' and m is None:
                # no proof and no model: look for a concrete violation before giving up
                if self._hunt(ctx, label, neg):
                    return False
                self._inc(label, 'solver unknown')
                return False
            self.res['spurious'] += 1
            lem = solve.refine(ctx, m)
            if not lem:
                # rounding artefact? look for a robust witness in the interior
                if self._interior(ctx, label, neg):
                    return False
                self._inc(label, 'counterexample did not reproduce: %s' % _short(inp))
                return False
            self.res['refinements'] += len(lem)
            for l in lem:
                ctx.add(l, 'lemma')
        if self._hunt(ctx, label, neg):
            return False
        self._inc(label, 'refinement limit')
        return False

    def _hunt(self, ctx, label, neg):
        for inp in ctx.points_refuting(neg):
            if self.try_replay(ctx, label, inp):
                return True
        return False

    def _interior(self, ctx, label, neg):
        """second attempt: strictly inside the path's inequalities"""
        rng = random.Random(self.seed)
        cons = list(ctx.cons)
        extra = []
        for v in ctx.inputs.values():
            n = v.decl().name()
            lo, hi = ctx.box.get(n, (None, None))
            if lo is None or isinstance(lo, float) or isinstance(hi, float) or lo == hi:
                continue
            w = hi - lo
            extra.append(z3.And(v > R(lo + w / 1000), v < R(hi - w / 1000)))
        for k in range(3):
            e = list(extra)
            if k:
                for v in ctx.inputs.values():
                    lo, hi = ctx.box.get(v.decl().name(), (0.0, 0.0))
                    if isinstance(lo, float) or isinstance(hi, float):
                        continue
                    mid = lo + (hi - lo) * Fraction(rng.randint(100, 900), 1000)
                    e.append(v > R(mid) if rng.random() < .5 else v < R(mid))
            r, m = solve.check(cons + e + [neg] + (solve.pi_bounds() if ctx.pi_used else []), 3000)
            if r == 'sat':
                if self.try_replay(ctx, label, self.model_inputs(ctx, m)):
                    return True
        return False

    def _inc(self, label, why):
        self.res['inconclusive'].append(dict(label=label, why=why))

    def model_inputs(self, ctx, m):
        d = {n: numval(m.eval(v, model_completion=True)) for n, v in ctx.inputs.items()}
        for n in d:
            if n in ctx.intvars:
                d[n] = float(round(d[n]))
        return d

    def sample_inputs(self, ctx, i):
        return {n: float(ctx.env[n][i]) for n in ctx.inputs}

    def try_replay(self, ctx, label, inp):
        # inputs created after this point do not exist yet: let the replay run
        # with defaults for them (middle of the box)
        cur = dict(inp)
        for _ in range(40):
            fails, obs, st = replay(self.h, cur, ctx.choices, self.params)
            if st.startswith('missing '):
                if any(f[0].split(' (')[0] == label.split(' (')[0] for f in fails):
                    break
                cur[st[8:]] = self.default_input(st[8:])
                continue
            break
        # the obligation itself fails, or the code raises where the symbolic path did not
        hit = [f for f in fails if f[0].split(' (')[0] == label.split(' (')[0]] or \
            [f for f in fails if f[0] != 'exception' or 'exception' not in self.allow_exc]
        if hit:
            self.violation(ctx, hit[0][0], cur, hit)
            return True
        return False

    def default_input(self, name):
        return 0.5

    def violation(self, ctx, label, inp, fails):
        key = label
        if any(v['label'] == key for v in self.res['violations']):
            return
        self.res['violations'].append(dict(label=label, inputs=inp, choices=dict(ctx.choices),
                                           failures=[list(map(str, f)) for f in fails[:6]],
                                           job=self.name))

    # ---------------------------------------------------------------- explore
    def go(self):
        loader.activate('sym')
        from . import symnp
        symnp.NUMPI = self.numpi
        work = [[]]
        while work:
            if self.res['paths'] + self.res['infeasible'] >= self.max_paths:
                self._inc('*', 'path limit %d' % self.max_paths)
                break
            if time.time() > self.deadline:
                self._inc('*', 'job time limit')
                break
            if self.stop and len(self.res['violations']) >= 3:
                break
            prefix = work.pop()
            ctx = Ctx(prefix, **self.opts)
            core.CTX = ctx
            m = SymM(ctx, self)
            status = 'ok'
            exc = None
            try:
                with warnings.catch_warnings(), np.errstate(all='ignore'):
                    warnings.simplefilter('ignore')
                    self.h(m, **self.params)
            except Infeasible:
                status = 'infeasible'
            except (Unsupported, PathLimit) as e:
                status = 'unsupported'
                exc = e
                self._inc('*', '%s: %s @ %s' % (type(e).__name__, e, _where(e)))
            except Exception as e:
                status = 'exception'
                exc = e
            finally:
                m.close()
            work.extend(ctx.alternatives)
            self.res['decisions'] += len(ctx.trace)
            self.res['forks'] += ctx.forks
            if status == 'infeasible':
                self.res['infeasible'] += 1
                continue
            self.res['paths'] += 1
            if status == 'exception':
                self._exception(ctx, exc)
            elif status == 'ok':
                self._witness(ctx, m)
        core.CTX = None
        r = self.res
        r['wall_s'] = round(time.time() - self.t0, 2)
        r['stats'] = dict(STATS)
        if r['paths'] == 0:
            self._inc('*', 'vacuous: no path was reached')
        elif r['witnesses'] == 0 and not r['violations']:
            self._inc('*', 'vacuous: no path has a concrete witness')
        if r['obligations'] == 0:
            self._inc('*', 'vacuous: no obligation was generated')
        return r

    def _model(self, ctx, ms=4000):
        cons = list(ctx.cons) + (solve.pi_bounds() if ctx.pi_used else [])
        r, mod = solve.check(cons, ms)
        return mod, r

    def _exception(self, ctx, exc):
        key = '%s: %s @ %s' % (type(exc).__name__, str(exc)[:160], _where(exc))
        for _ in range(4):
            mod, r = self._model(ctx)
            if mod is None:
                break
            inp = self.model_inputs(ctx, mod)
            fails, obs, st = replay(self.h, inp, ctx.choices, self.params)
            if st == 'raised' or fails:
                self.violation(ctx, fails[-1][0], inp, fails[::-1])
                return
            lem = solve.refine(ctx, mod)
            if not lem:
                break
            for l in lem:
                try:
                    ctx.add(l, 'lemma')
                except Infeasible:
                    return
        if mod is None and r == 'unsat':
            self.res['paths'] -= 1
            self.res['infeasible'] += 1
            return
        tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
        self._inc('*', 'engine: symbolic run raised %s' % key)
        self.res['error'] = ''.join(tb[-8:])[-1800:]

    def _witness(self, ctx, m):
        pts = []
        if ctx.numok and ctx.alive.any():
            idx = np.flatnonzero(ctx.alive)
            pts = [self.sample_inputs(ctx, i) for i in (idx[len(idx) // 2], idx[0])[:2 if self.validate else 1]]
        else:
            mod = ctx.models[-1] if ctx.models else None
            if mod is None and (not self.res['witnesses'] or ctx.forks == 0):
                mod, r = self._model(ctx, 2000)
            if mod is not None:
                pts = [self.model_inputs(ctx, mod)]
        if not pts:
            return
        self.res['witnesses'] += 1
        for inp in pts:
            self._validate(ctx, m, inp)

    def _validate(self, ctx, m, inp):
        if len(self.res['samples']) < 3:
            self.res['samples'].append(dict(path=''.join(ctx.trace)[:80], inputs=inp, choices=dict(ctx.choices)))
        if not self.validate:
            return
        fails, obs, st = replay(self.h, inp, ctx.choices, self.params)
        if fails and (st == 'ok' or st == 'raised'):
            # the real code breaks the property at this concrete point
            self.violation(ctx, fails[0][0], inp, fails)
            return
        if st != 'ok' or not m.obsv:
            self.res['validation_skipped'] += 1
            return
        memo = {}
        ufs = {}
        try:
            # does the concrete point really follow this path?
            for c, k in zip(ctx.cons, ctx.conkind):
                if k in ('path', 'dom') and not evalnum(c, inp, ctx.defs, ufs, memo):
                    self.res['validation_skipped'] += 1
                    return
            if len(obs) != len(m.obsv):
                self.res['validation_skipped'] += 1
                return
            n = 0
            for (n1, a), (n2, b) in zip(m.obsv, obs):
                if isinstance(a, SV):
                    v = evalnum(a.t, inp, ctx.defs, ufs, memo)
                elif isinstance(a, SBool):
                    v = float(evalnum(a.b, inp, ctx.defs, ufs, memo))
                elif a is None or isinstance(a, str):
                    if a != b:
                        self.res['validation_errors'].append('%s: %r vs %r' % (n1, a, b))
                    continue
                else:
                    v = float(a)
                b = float(b)
                if math.isnan(v) and math.isnan(b) or v == b:
                    n += 1
                    continue
                if not abs(v - b) <= 1e-5 * (1 + abs(b)):
                    if _fragile(ctx, inp, memo):
                        self.res['validation_skipped'] += 1
                        return
                    self.res['validation_errors'].append(
                        '%s: encoding %r, real code %r at %s' % (n1, v, b, _short(inp)))
                    return
                n += 1
            self.res['validated'] += 1
        except NoNumeric:
            self.res['validation_skipped'] += 1
        except (OverflowError, ZeroDivisionError, ValueError):
            self.res['validation_skipped'] += 1


def _fragile(ctx, inp, memo):
    """is the point numerically on the edge of one of the path's conditions?"""
    for c, k in zip(ctx.cons, ctx.conkind):
        if k != 'path':
            continue
        while z3.is_not(c):
            c = c.arg(0)
        stack = [c]
        while stack:
            c = stack.pop()
            if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
                stack += c.children()
            elif c.num_args() == 2 and c.arg(0).sort() == z3.RealSort():
                try:
                    a = evalnum(c.arg(0), inp, ctx.defs, {}, memo)
                    b = evalnum(c.arg(1), inp, ctx.defs, {}, memo)
                except Exception:
                    continue
                if abs(a - b) <= 1e-7 * (1 + abs(a)):
                    return True
    return False


def _short(inp):
    return '{' + ', '.join('%s=%.6g' % (k, v) for k, v in list(inp.items())[:12]) + '}'


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if '/pvlib/' in f.filename:
            return '%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name)
    f = tb[-1]
    return '%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name)
