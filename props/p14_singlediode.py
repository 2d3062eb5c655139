import inspect
import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P14'
FUNCTIONS = ['singlediode.bishop88', 'singlediode.bishop88_i_from_v', 'singlediode.bishop88_v_from_i', 'singlediode.bishop88_mpp',
             'singlediode._lambertw_i_from_v', 'singlediode._lambertw_v_from_i', 'singlediode._lambertw', 'singlediode.estimate_voc',
             'singlediode.batzelis', 'pvsystem.singlediode', 'pvsystem.i_from_v', 'pvsystem.v_from_i', 'pvsystem.max_power_point']
BOUNDS = ('photocurrent in [0.01, 15] A, saturation current in [1e-12, 1e-3] A, series resistance 0 or in [0.001, 5] Ohm, shunt '
          'resistance in [1, 1e5] Ohm or infinite, nNsVth in [0.5, 10] V, diode voltage in [-10, 100] V, d2mutau in (0, 5], NsVbi above '
          'the diode voltage, breakdown factor in [0, 0.1], breakdown voltage in [-30, -2] V and below the diode voltage, exponent '
          '3.28 and 2.5; scalars, arrays and series of up to 3 elements. Newton, Brent and Chandrupatla are represented by their '
          'contract (the result is a root of the function they are given), the Lambert W function by w exp(w) = x')
OUTSIDE = 'floating point convergence of the root finders and of the Lambert W iteration; the maximum power search by the Lambert W method'


def params(m, rs='pos', rsh='finite', suffix=''):
    iph, i0 = m.real('iph' + suffix, 0.01, 15), m.real('i0' + suffix, 1e-12, 1e-3)
    Rs = m.real('rs' + suffix, 0.001, 5) if rs == 'pos' else 0.0
    # reciprocals as inputs keep the terms polynomial
    Rsh = 1 / m.real('gsh' + suffix, 1e-5, 1) if rsh == 'finite' else np.inf
    return iph, i0, Rs, Rsh, 1 / m.real('rn' + suffix, 0.1, 2)


class Jet:
    """value, first and second derivative with respect to the diode voltage"""

    def __init__(self, v, d=0.0, e=0.0):
        self.v, self.d, self.e = v, d, e

    def __add__(self, o):
        o = o if isinstance(o, Jet) else Jet(o)
        return Jet(self.v + o.v, self.d + o.d, self.e + o.e)

    def __sub__(self, o):
        o = o if isinstance(o, Jet) else Jet(o)
        return Jet(self.v - o.v, self.d - o.d, self.e - o.e)

    def __mul__(self, o):
        o = o if isinstance(o, Jet) else Jet(o)
        return Jet(self.v * o.v, self.d * o.v + self.v * o.d, self.e * o.v + 2 * self.d * o.d + self.v * o.e)

    def inv(self):
        return Jet(1 / self.v, -self.d / self.v**2, (2 * self.d * self.d / self.v - self.e) / self.v**2)

    def exp(self, m):
        x = m.np.exp(self.v)
        return Jet(x, x * self.d, x * (self.d * self.d + self.e))

    def pow(self, m, q):
        x = m.np.power(self.v, q)
        return Jet(x, q * x / self.v * self.d, q * x / self.v * ((q - 1) * self.d * self.d / self.v + self.e))


def extra(m, recomb, brk, vd):
    kw = {}
    if recomb:
        kw.update(d2mutau=m.real('mutau', 0, 5, lo_open=True), NsVbi=vd + m.real('vrec', 0.01, 100))
    if brk:
        kw.update(breakdown_factor=m.real('bf', 0, 0.1, lo_open=True), breakdown_voltage=1 / m.real('rbv', -0.5, -0.03))
        m.assume(vd >= kw['breakdown_voltage'] + 0.01)
        if brk != 'default':
            kw.update(breakdown_exp=brk)
    return kw


def curve(m, vd, p, kw):
    """the published current with its derivatives"""
    iph, i0, Rs, Rsh, n = p
    x = Jet(vd, 1.0)
    i = Jet(iph) - ((x * (1 / n)).exp(m) - 1) * i0 - x * (1 / Rsh if not _inf(Rsh) else 0.0)
    if 'd2mutau' in kw:
        i = i - (Jet(kw['NsVbi']) - x).inv() * (iph * kw['d2mutau'])
    if 'breakdown_factor' in kw:
        q = kw.get('breakdown_exp', 3.28)
        i = i - x * (Jet(1.0) - x * (1 / kw['breakdown_voltage'])).pow(m, -q) * (kw['breakdown_factor'] / Rsh)
    return i


def _inf(x):
    return isinstance(x, float) and np.isinf(x)


def point(m, recomb, brk, rs='pos', rsh='finite', kind='scalar'):
    vd = m.real('vd', -10, 100)
    p = params(m, rs, rsh)
    kw = extra(m, recomb, brk, vd)
    x = vd if kind == 'scalar' else m.arr([vd]) if kind == 'array' else pd.Series([vd], index=[4])
    r = [m.item(v) for v in m.pv.singlediode.bishop88(x, *p, gradients=True, **kw)]
    q = [m.item(v) for v in m.pv.singlediode.bishop88(x, *p, **kw)]
    m.true('outputs', len(r) == 8 and len(q) == 3)
    j = curve(m, vd, p, kw)
    i, v, pw = q
    m.obs('i', i)
    m.eq('single diode equation', i, j.v, rtol=1e-9)
    m.eq('terminal voltage', v, vd - i * p[2])
    m.eq('power', pw, i * v)
    for a, b, name in zip(r[:3], q, ('current', 'voltage', 'power')):
        m.eq('same %s with gradients' % name, a, b)
    V = Jet(vd, 1.0) - j * p[2]
    P = j * V
    m.assume(abs(V.d) >= 1e-6)
    big = dict(rtol=1e-7, atol=1e-7)
    m.eq('di/dvd', r[3], j.d, **big)
    m.eq('dv/dvd', r[4], V.d, **big)
    m.eq('di/dv', r[5], j.d / V.d, **big)
    m.eq('dp/dv', r[6], P.d / V.d, **big)
    m.eq('d(dp/dv)/dvd', r[7], (P.e - P.d / V.d * V.e) / V.d, **big)


def broadcast(m):
    """elements of arrays are solved on their own parameters"""
    a, b = params(m), params(m, suffix='2')
    v1, v2 = m.real('vd', -10, 100), m.real('vd2', -10, 100)
    f = m.pv.singlediode.bishop88
    cols = [m.arr([x, y]) for x, y in zip(a, b)]
    r = f(m.arr([v1, v2]), *cols)
    for k, (v, p) in enumerate(((v1, a), (v2, b))):
        for x, y in zip(r, f(v, *p)):
            m.eq('element', x[k], m.item(y))
    # recombination only where its parameter is positive
    mu, vbi = m.real('mutau', 0, 5, lo_open=True), m.real('vbi', 101, 200)
    r = f(m.arr([v1, v2]), *cols, d2mutau=m.arr([mu, 0.0]), NsVbi=m.arr([vbi, vbi]))
    m.eq('with recombination', r[0][0], m.item(f(v1, *a, d2mutau=mu, NsVbi=vbi)[0]))
    m.eq('without recombination', r[0][1], m.item(f(v2, *b)[0]))


def stubw(m):
    d = m.mod('singlediode')
    w, lw = d._lambertw_pvlib, d._log_lambertw
    m.stub('singlediode', '_lambertw_pvlib', lambda x: m.lambertw(x, w))
    m.stub('singlediode', '_log_lambertw', lambda x: m.lambertw(x, lw, True))


def solve_i(m, rs, rsh, kind='scalar'):
    """the current of the Lambert W method satisfies the single diode equation at the voltage given"""
    iph, i0, Rs, Rsh, n = p = params(m, rs, rsh)
    v = m.real('v', -2, 60)
    if rs == 'pos':
        stubw(m)
    if kind == 'scalar':
        i = m.pv.pvsystem.i_from_v(v, *p)
    else:
        a, b = (v, iph) if kind == 'array' else (iph, v)
        i = m.pv.pvsystem.i_from_v(m.arr([v, v]), m.arr([iph, iph]), i0, Rs, Rsh, n)
        m.true('one current per voltage', np.shape(i) == (2,))
        m.eq('equal elements, equal currents', i[0], i[1])
        i = i[1]
    i = m.item(i)
    m.obs('i', i)
    g = 1 / Rsh if rsh == 'finite' else 0.0
    y = (v + i * Rs) / n
    m.eq('single diode equation', i, iph - i0 * (m.np.exp(y) - 1) - (v + i * Rs) * g, rtol=1e-6, atol=1e-6)


def solve_v(m, rs, rsh, kind='scalar'):
    iph, i0, Rs, Rsh, n = p = params(m, rs, rsh)
    i = m.real('i', -1, 15)
    if rsh == 'finite':
        stubw(m)
    else:
        m.assume(i <= iph)
    if kind == 'scalar':
        v = m.pv.pvsystem.v_from_i(i, *p)
    else:
        v = m.pv.pvsystem.v_from_i(m.arr([i, i]), m.arr([iph, iph]), i0, Rs, Rsh, n)
        m.true('one voltage per current', np.shape(v) == (2,))
        m.eq('equal elements, equal voltages', v[0], v[1])
        v = v[1]
    v = m.item(v)
    m.obs('v', v)
    g = 1 / Rsh if rsh == 'finite' else 0.0
    y = (v + i * Rs) / n
    m.eq('single diode equation', i, iph - i0 * (m.exp(y) - 1) - (v + i * Rs) * g, rtol=1e-6, atol=1e-6)


NAMES = {'i_from_v': 0, 'v_from_i': 1, 'mpp': 2}


def seek(m, what, method, full=False, kind='scalar'):
    """the root finders search a root of the right residual, with its true derivative and a bracket with a change of
    sign, and the result is the point of the curve at the root"""
    p = params(m)
    sd = m.mod('singlediode')
    pos = dict(lo_open=True)
    kw = {}
    if full:
        kw = dict(d2mutau=m.real('mutau', 0, 5, **pos), NsVbi=m.real('vbi', 40, 100), breakdown_factor=m.real('bf', 0, 0.1, **pos),
                  breakdown_voltage=1 / m.real('rbv', -0.5, -0.2), breakdown_exp=2.5)
    target = m.real('target', 0, 30) if what == 'i_from_v' else m.real('target', 0, 15) if what == 'v_from_i' else None
    root, probe = m.real('root', -2, 39), m.real('probe', -1, 39)
    b = sd.bishop88
    voc = p[4] * m.np.log(p[0] / p[1] + 1.0)
    if not full:
        m.assume(target <= voc if what == 'i_from_v' else target <= p[0] if what == 'v_from_i' else True)

    def resid(x):
        r = b(x, *p, gradients=True, **kw)
        if what == 'mpp':
            return m.item(r[6]), m.item(r[7])
        k = 1 - NAMES[what]
        return m.item(r[k]) - target, m.item(r[3 + k])
    seen = []

    def hook(kd, f, start, df, args, kwargs):
        seen.append(kd)
        m.eq('residual', m.item(f(probe, *args)), resid(probe)[0], rtol=1e-7, atol=1e-7)
        if kd == 'newton':
            if df is not None:
                m.eq('derivative of the residual', m.item(df(probe, *args)), resid(probe)[1], rtol=1e-7, atol=1e-7)
            return root
        if kd == 'find_root':
            class Res:
                x = root
            start = [m.item(x) for x in start]
            res = Res
        else:
            res = root
        if not full:
            lo, hi = m.item(f(start[0], *args)), m.item(f(start[1], *args))
            if what == 'i_from_v':
                m.le('bracket, low end', lo, 0, 1e-7)
                m.ge('bracket, high end', hi, 0, 1e-7)
            elif what == 'v_from_i':
                m.ge('bracket, low end', lo, 0, 1e-7)
                m.le('bracket, high end', hi, 0, 1e-7)
            else:
                m.ge('bracket, low end', lo, 0, 1e-7)
        return res
    m.optim(hook)
    g = getattr(sd, 'bishop88_' + what)
    arg = (target,) if target is not None else ()
    r = g(*arg, *p, method=method, **kw)
    m.true('root finder used', set(seen) == {{'chandrupatla': 'find_root'}.get(method, method)})
    e = [m.item(x) for x in b(root, *p, **kw)]
    if what == 'mpp':
        for x, y, n in zip(r, e, ('current', 'voltage', 'power')):
            m.eq(n, m.item(x), y)
    else:
        m.eq('point at the root', m.item(r), e[NAMES[what]])
    # the front end hands every argument over
    if not full:
        pv = m.pv.pvsystem
        if what == 'mpp':
            r = pv.max_power_point(*p, method=method)
            for n, y in zip(('i_mp', 'v_mp', 'p_mp'), e):
                m.eq('front end ' + n, m.item(r[n]), y)
        else:
            m.eq('front end', m.item(getattr(pv, what)(target, *p, method=method)), e[NAMES[what]])


def seek_array(m, what):
    """array inputs of the Newton method: element k uses the parameters and the target of element k"""
    p, q = params(m), params(m, suffix='2')
    t = [m.real('target', 0, 10), m.real('target2', 0, 10)]
    root = [m.real('root', 0, 30), m.real('root2', 0, 30)]
    probe = [m.real('probe', 0, 30), m.real('probe2', 0, 30)]
    b = m.mod('singlediode').bishop88
    seen = []

    def hook(kd, f, start, df, args, kwargs):
        m.true('one start per element', np.shape(start) == (2,))
        seen.append((f(m.arr(probe), *args), df(m.arr(probe), *args)))
        return m.arr(root)
    m.optim(hook)
    g = getattr(m.mod('singlediode'), 'bishop88_' + what)
    cols = [m.arr([x, y]) for x, y in zip(p, q)]
    r = g(*([m.arr(t)] if what != 'mpp' else []), *cols)
    for k, pp in enumerate((p, q)):
        e, x = [m.item(v) for v in b(probe[k], *pp, gradients=True)], [m.item(v) for v in b(root[k], *pp)]
        f, df = seen[0]
        j = 1 - NAMES[what]
        m.eq('residual of element', f[k], e[6] if what == 'mpp' else e[j] - t[k], rtol=1e-7, atol=1e-7)
        m.eq('derivative of element', df[k], e[7] if what == 'mpp' else e[3 + j], rtol=1e-7, atol=1e-7)
        if what == 'mpp':
            for a, y in zip(r, x):
                m.eq('element', a[k], y)
        else:
            m.eq('element', r[k], x[NAMES[what]])


def seven(m, method, kind):
    """the seven points of pvsystem.singlediode are the named points of one curve"""
    sd = m.mod('singlediode')
    n = 1 if kind == 'scalar' else 2
    P = [params(m, suffix=str(k)) for k in range(n)]
    low = method.lower()
    vmp = [m.real('vmp%d' % k, 0, 60) for k in range(n)]

    def uf(name, orig):
        sig = inspect.signature(orig)

        def f(*a, **k):
            return _map(m, name, *list(sig.bind(*a, **k).arguments.values())[:6])
        return f
    if low == 'lambertw':
        m.stub('singlediode', '_lambertw_i_from_v', uf('i', sd._lambertw_i_from_v))
        m.stub('singlediode', '_lambertw_v_from_i', uf('v', sd._lambertw_v_from_i))
        probe = [m.real('probe%d' % k, 0, 60) for k in range(n)]

        def hook(kd, f, start, df, args, kwargs):
            m.true('minimum finder used', kd == 'find_minimum')

            def f_(v):
                return f(v[0] if n == 1 else m.arr(v), *args)
            y = f_(probe)
            for k in range(n):
                m.eq('objective', m.item(y if n == 1 else y[k]), -probe[k] * m.uf('i', probe[k], *P[k]), rtol=1e-7, atol=1e-7)

            class Res:
                x = vmp[0] if n == 1 else m.arr(vmp)
                f_x = f_(vmp)
                success = True
            return Res
        m.optim(hook)
    else:
        m.stub('singlediode', 'bishop88_i_from_v', uf('i', sd.bishop88_i_from_v))
        m.stub('singlediode', 'bishop88_v_from_i', uf('v', sd.bishop88_v_from_i))

        def mpp(*p, **k):
            a = vmp[0] if n == 1 else m.arr(vmp)
            i = _map(m, 'i', a, *p)
            return i, a, i * a
        m.stub('singlediode', 'bishop88_mpp', mpp)
    idx = pd.DatetimeIndex(['2020-06-01 10:00', '2020-06-01 11:00'], tz='Etc/GMT+7')
    cols = [x[0] if n == 1 else m.arr(x) if kind == 'array' else pd.Series(list(x), index=idx) for x in zip(*P)]
    if kind == 'mixed':
        cols[0], cols[2], cols[4] = pd.Series([p[0] for p in P], index=idx), P[0][2], P[0][4]
        P = [(p[0], p[1], P[0][2], p[3], P[0][4]) for p in P]
    for k in range(n):
        m.assume(m.uf('v', 0.0, *P[k]) >= 0)
    r = m.pv.pvsystem.singlediode(*cols, method=method)
    if n > 1:
        m.true('columns', list(r.columns) == ['i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp', 'i_x', 'i_xx'])
        m.true('index', len(r) == 2 and (kind == 'array' or r.index.equals(idx)))
    else:
        m.true('keys', set(r) == {'i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp', 'i_x', 'i_xx'})
    for k in range(n):
        o = {c: m.item(r[c]) if n == 1 else r[c].iloc[k] for c in ('i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp', 'i_x', 'i_xx')}
        voc = m.uf('v', 0.0, *P[k])
        m.eq('open circuit voltage', o['v_oc'], voc)
        m.eq('short circuit current', o['i_sc'], m.uf('i', 0.0, *P[k]))
        m.eq('v_mp', o['v_mp'], vmp[k])
        m.eq('i_mp', o['i_mp'], m.uf('i', vmp[k], *P[k]))
        m.eq('p_mp', o['p_mp'], vmp[k] * o['i_mp'])
        m.eq('i_x', o['i_x'], m.uf('i', voc / 2, *P[k]))
        m.eq('i_xx', o['i_xx'], m.uf('i', (voc + vmp[k]) / 2, *P[k]))


def _map(m, name, *args):
    if any(isinstance(a, (np.ndarray, pd.Series)) and np.ndim(a) for a in args):
        n = max(len(a) for a in args if np.ndim(a))
        cols = [list(np.asarray(a)) if np.ndim(a) else [m.item(a)] * n for a in args]
        return m.arr([m.uf(name, *c) for c in zip(*cols)])
    return m.uf(name, *[m.item(a) for a in args])


def approx(m, kind):
    """estimate of the open circuit voltage, and the explicit approximation of Batzelis and Papathanassiou"""
    iph, i0, Rs, Rsh, n = p = params(m)
    m.eq('estimated open circuit voltage', m.item(m.pv.singlediode.estimate_voc(iph, i0, n)), n * m.np.log(iph / i0 + 1.0))
    W = [m.real('w', 0.2, 30)]
    seen = []

    def w(x):
        x = np.asarray(x).reshape(-1)
        seen.append(x[0])
        return m.arr([W[0]] * len(x)) if kind != 'scalar' else W[0]
    m.stub('singlediode', '_lambertw_pvlib', w)
    one = {'scalar': lambda a: a, 'array': lambda a: m.arr([a]), 'series': lambda a: pd.Series([a], index=[3])}[kind]
    r = m.pv.singlediode.batzelis(*map(one, p))
    w = W[0]
    m.eq('argument of W', seen[0], np.e * iph / i0)
    imp = iph * (1 - 1 / w) - n * (w - 1) / Rsh
    vmp = n * (w - 1) - Rs * imp
    for k, v in dict(i_sc=iph / (1 + Rs / Rsh), v_oc=n * m.np.log(iph / i0), i_mp=imp, v_mp=vmp, p_mp=vmp * imp).items():
        m.eq(k, m.item(r[k]), v)
    r = m.pv.singlediode.batzelis(*[one(x) for x in (0.0, *p[1:])])
    for k in ('i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp'):
        m.eq('no light, ' + k, m.item(r[k]), 0)
    if kind == 'series':
        m.true('index', isinstance(r, pd.DataFrame) and list(r.index) == [3])


def bad(m):
    pv = m.pv
    p = params(m)
    for what in ('i_from_v', 'v_from_i'):
        m.raises('unknown method ' + what, NotImplementedError, getattr(pv.pvsystem, what), 1.0, *p, method='nope')
    m.raises('unknown method mpp', NotImplementedError, pv.pvsystem.max_power_point, *p, method='nope')


def jobs(tier):
    yield Job('unknown method', bad)
    for k in ('scalar', 'array', 'series'):
        yield Job('approximations, ' + k, approx, params=dict(kind=k))
    for what in NAMES:
        for meth in ('newton', 'brentq', 'chandrupatla'):
            for f in (False, True):
                yield Job('%s by %s%s' % (what, meth, ', all terms' if f else ''), seek, params=dict(what=what, method=meth, full=f))
        yield Job('%s by newton, array' % what, seek_array, params=dict(what=what))
    for meth in ('lambertw', 'newton', 'BrentQ'):
        for k in ('scalar', 'array', 'series', 'mixed'):
            yield Job('singlediode %s, %s' % (meth, k), seven, params=dict(method=meth, kind=k))
    for r in (False, True):
        for b in (False, 'default', 2.5):
            yield Job('bishop88%s%s' % (', recombination' if r else '', ', breakdown %s' % b if b else ''), point,
                      params=dict(recomb=r, brk=b))
    yield Job('bishop88, infinite shunt', point, params=dict(recomb=False, brk=False, rsh='inf'))
    yield Job('bishop88, no series resistance', point, params=dict(recomb=True, brk=False, rs='zero'))
    yield Job('bishop88 array', point, params=dict(recomb=True, brk='default', kind='array'))
    yield Job('bishop88 series', point, params=dict(recomb=True, brk='default', kind='series'))
    yield Job('bishop88, elements', broadcast)
    for rs in ('pos', 'zero'):
        for rsh in ('finite', 'inf'):
            for k in ('scalar', 'array'):
                yield Job('current by Lambert W, rs %s, rsh %s, %s' % (rs, rsh, k), solve_i, params=dict(rs=rs, rsh=rsh, kind=k))
                yield Job('voltage by Lambert W, rs %s, rsh %s, %s' % (rs, rsh, k), solve_v, params=dict(rs=rs, rsh=rsh, kind=k),
                          expinf=(rsh == 'finite'))
