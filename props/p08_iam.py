import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P08'
FUNCTIONS = ['iam.physical', 'iam.ashrae', 'iam.martin_ruiz', 'iam.sapm', 'iam.schlick', 'iam.interp (linear)',
             'iam.martin_ruiz_diffuse', 'iam.schlick_diffuse', 'iam.marion_integrate', 'iam.marion_diffuse (wiring)']
BOUNDS = ('angle of incidence in [-180, 180] degrees (physical: [0, 180] where the cover index is 1) and NaN; n in [1.05, 2] (upper limit of 1: n in {1.1, 1.3, 1.4, 1.526, 1.7, 2}), n_ar '
          'in [1.05, 2], K in [0, 20], L in [0, 0.01]; b in [0, 0.5]; a_r in [0.05, 1]; SAPM coefficients in boxes around '
          'the published sets; linear interpolation of up to 4 points (the scipy spline replaced by exact piecewise linear '
          'interpolation); tilt in [0, 180]; Marion integration on a 6x12 grid at fixed tilts for an arbitrary modifier in [0, 1]; '
          'exp uninterpreted, positive, increasing')
OUTSIDE = 'quadratic and cubic interpolation; iam.convert / iam.fit (a numerical optimisation); Marion grids finer than 6x12'


def fresnel(m, c1, n1, n2):
    """(rho_s, rho_p, cos of refraction angle) between media n1, n2"""
    s2 = (n1 / n2)**2 * (1 - c1 * c1)
    c2 = m.np.sqrt(1 - s2)
    rs = ((n1 * c1 - n2 * c2) / (n1 * c1 + n2 * c2))**2
    rp = ((n1 * c2 - n2 * c1) / (n1 * c2 + n2 * c1))**2
    return rs, rp, c2


def cosabs(m, a):
    return m.cosd(a)


def ashrae(m, kind='scalar'):
    a, b = m.real('aoi', -180, 180), m.real('b', 0, 0.5)
    f = m.pv.iam.ashrae
    r = m.item(f(a, b)) if kind == 'scalar' else f(pd.Series([a], index=[4]), b).loc[4] if kind == 'series' else \
        f(m.arr([a]), b)[0]
    m.obs('r', r)
    m.between('range', r, 0, 1, 0)
    if a >= 90 or a <= -90:
        m.eq('0 at and beyond 90 degrees', r, 0)
        return
    e = 1 - b * (1 / m.cosd(a) - 1)
    m.eq('published formula', r, e if e >= 0 else 0.0)
    m.eq('even in the angle', m.item(f(-a, b)), r)
    m.eq('1 at normal incidence', m.item(f(0.0, b)), 1)
    m.nan('NaN angle', m.item(f(float('nan'), b)))
    m.eq('default b', m.item(f(a)), m.item(f(a, 0.05)))


def physical(m, what, kind='scalar', n=None):
    a, n, K, L = m.real('aoi', -180, 180), m.real('n', n or 1.05, n or 2), m.real('K', 0, 20), m.real('L', 0, 0.01)
    f = m.pv.iam.physical
    if what == 'normal':
        m.eq('1 at normal incidence', m.item(f(0.0, n, K, L)), 1)
        return
    if what == 'behind':
        m.assume((a >= 90) | (a <= -90))
        m.eq('0 at and beyond 90 degrees', m.item(f(a, n, K, L)), 0)
        return
    m.assume(a < 89.9)
    m.assume(a > -89.9)
    m.link(a, 89.9, -89.9)
    r = m.item(f(a, n, K, L)) if kind == 'scalar' else f(pd.Series([a], index=[4]), n, K, L).loc[4] if kind == 'series' else \
        f(m.arr([a]), n, K, L)[0]
    m.obs('r', r)
    c = m.cosd(a)
    rs, rp, c2 = fresnel(m, c, 1, n)
    r0 = ((1 - n) / (1 + n))**2
    e = (1 - (rs + rp) / 2) * m.np.exp(-K * L / c2) / ((1 - r0) * m.np.exp(-K * L))
    m.eq('published formula', r, e)
    m.eq('even in the angle', m.item(f(-a, n, K, L)), r)
    m.ge('not negative', r, 0, 0)
    if what == 'range':
        z = m.item(f(a, n, 0.0, L))
        m.le('at most 1 without absorption', z, 1, 1e-9)
        u = m.np.exp(-K * L / c2) / m.np.exp(-K * L)
        m.eq('absorption factor', r, z * u)
        m.le('absorption only lowers the modifier', u, 1, 0)
        m.assume(z <= 1 + 1e-8)
        m.assume(u <= 1)
        m.le('at most 1', z * u, 1, 1e-7)


def physical_vacuum(m):
    """cover index 1: no reflection, absorption only"""
    a, K, L = m.real('aoi', 0, 180), m.real('K', 0, 20), m.real('L', 0, 0.01)
    r = m.item(m.pv.iam.physical(a, 1.0, K, L))
    if a >= 90:
        m.eq('0 at and beyond 90 degrees', r, 0)
        return
    m.assume(a < 89.9)
    m.link(a, 89.9)
    m.eq('absorption only', r, m.np.exp(-K * L / m.cosd(a)) / m.np.exp(-K * L))


def physical_ar(m):
    a, n, q = m.real('aoi', 0, 89), m.real('n', 1.05, 2), m.real('nar', 1.05, 2)
    K, L = 4.0, 0.002
    m.assume(abs(n - q) > 0.01)
    m.link(a, 89)
    r = m.item(m.pv.iam.physical(a, n, K, L, n_ar=q))
    c = m.cosd(a)
    rs, rp, c2 = fresnel(m, c, 1, q)
    ts, tp, t0 = 1 - rs, 1 - rp, 1 - ((1 - q) / (1 + q))**2
    rs3, rp3, c3 = fresnel(m, c2, q, n)
    r03 = ((q - n) / (q + n))**2
    ts = ts * (1 - rs3) / (1 - rs3 * rs)
    tp = tp * (1 - rp3) / (1 - rp3 * rp)
    t0 = t0 * (1 - r03) / (1 - r03 * ((1 - q) / (1 + q))**2)
    m.eq('published formula with a coating', r, (ts + tp) / 2 / t0 * m.np.exp(-K * L / c3) / m.np.exp(-K * L))


def physical_ar_limits(m):
    n, q, a = m.real('n', 1.05, 2), m.real('nar', 1.05, 2), m.real('aoi', 90, 180)
    m.assume(abs(n - q) > 0.01)
    f = m.pv.iam.physical
    m.eq('1 at normal incidence', m.item(f(0.0, n, 4.0, 0.002, n_ar=q)), 1)
    m.eq('0 at and beyond 90 degrees', m.item(f(a, n, 4.0, 0.002, n_ar=q)), 0)
    b = m.real('aoi2', 0, 89)
    m.link(b, 89)
    m.eq('a coating of index 1 changes nothing', m.item(f(b, n, 4.0, 0.002, n_ar=1.0)), m.item(f(b, n, 4.0, 0.002)))
    m.eq('a coating like the cover changes nothing', m.item(f(b, 1.5, 4.0, 0.002, n_ar=1.5)), m.item(f(b, 1.5, 4.0, 0.002)))


def martin_ruiz(m, kind='scalar'):
    a, ar = m.real('aoi', -180, 180), m.real('ar', 0.05, 1)
    f = m.pv.iam.martin_ruiz
    r = m.item(f(a, ar)) if kind == 'scalar' else f(pd.Series([a], index=[4]), ar).loc[4] if kind == 'series' else \
        f(m.arr([a]), ar)[0]
    m.obs('r', r)
    if a >= 90 or a <= -90:
        m.eq('0 at and beyond 90 degrees', r, 0)
        return
    e = (1 - m.np.exp(-m.cosd(a) / ar)) / (1 - m.np.exp(-1 / ar))
    m.eq('published formula', r, e)
    m.between('range', r, 0, 1)
    m.eq('even in the angle', m.item(f(-a, ar)), r)
    m.eq('1 at normal incidence', m.item(f(0.0, ar)), 1)
    m.nan('NaN angle', m.item(f(float('nan'), ar)))


def martin_ruiz_bad(m):
    a, ar = m.real('aoi', -180, 180), m.real('ar', -1, 0)
    m.raises('a_r must be positive', ValueError, m.pv.iam.martin_ruiz, a, ar)


def martin_ruiz_diffuse(m, c2given):
    t, ar = m.real('tilt', 0, 180), m.real('ar', 0.05, 1)
    c1 = m.real('c1', 0.3, 0.5)
    m.assume(t > 0)
    m.assume(t < 180)
    c2 = m.real('c2', -0.2, 0) if c2given else None
    sky, gnd = m.pv.iam.martin_ruiz_diffuse(t, ar, c1, c2)
    sky, gnd = m.item(sky), m.item(gnd)
    m.obs('sky', sky), m.obs('gnd', gnd)
    C2 = c2 if c2given else 0.5 * ar - 0.154
    b = m.np.radians(t)
    s = m.sind(t)
    ts = s + (m.np.pi - b - s) / (1 + m.cosd(t))
    tg = s + (b - s) / (1 - m.cosd(t))
    m.eq('published formula, sky', sky, 1 - m.np.exp(-(c1 + C2 * ts) * ts / ar))
    m.eq('published formula, ground', gnd, 1 - m.np.exp(-(c1 + C2 * tg) * tg / ar))
    m.le('at most 1', sky, 1)
    m.le('at most 1', gnd, 1)


def martin_ruiz_diffuse_ends(m, t):
    ar = m.real('ar', 0.05, 1)
    sky, gnd = m.pv.iam.martin_ruiz_diffuse(t, ar)
    sky, gnd = m.item(sky), m.item(gnd)
    m.between('sky range at tilt %g' % t, sky, 0, 1)
    m.between('ground range at tilt %g' % t, gnd, 0, 1)
    if t == 0:
        m.eq('no ground in view', gnd, 0, atol=1e-5)
    if t == 180:
        m.eq('no sky in view', sky, 0, atol=1e-5)
    if t == 90:
        m.eq('symmetric at 90', sky, gnd)


def sapm(m, upper, kind='scalar'):
    a = m.real('aoi', -180, 180)
    box = dict(B0=(0.9, 1.1), B1=(-0.02, 0.02), B2=(-0.002, 0.002), B3=(-1e-4, 1e-4), B4=(-1e-6, 1e-6), B5=(-1e-8, 1e-8))
    B = {k: m.real(k, *v) for k, v in box.items()}
    u = m.real('upper', 0.5, 1.5) if upper else None
    f = m.pv.iam.sapm
    r = m.item(f(a, B, upper=u)) if kind == 'scalar' else f(pd.Series([a], index=[4]), B, upper=u).loc[4] if kind == 'series' \
        else f(m.arr([a]), B, upper=u)[0]
    m.obs('r', r)
    m.ge('not negative', r, 0, 0)
    if upper:
        m.le('at most the upper limit', r, u, 0)
    if a < 0:
        m.eq('0 for negative angles', r, 0)
        return
    e = sum(B['B%d' % i] * a**i for i in range(6))
    e = 0.0 if e < 0 else e
    if upper:
        e = u if e > u else e
    m.eq('clipped polynomial', r, e)
    m.nan('NaN angle', m.item(f(float('nan'), B)))


def schlick(m, kind='scalar'):
    a = m.real('aoi', -180, 180)
    f = m.pv.iam.schlick
    r = m.item(f(a)) if kind == 'scalar' else f(pd.Series([a], index=[4])).loc[4] if kind == 'series' else f(m.arr([a]))[0]
    m.obs('r', r)
    if a >= 90 or a <= -90:
        m.eq('0 at and beyond 90 degrees', r, 0)
        return
    m.between('range', r, 0, 1)
    m.eq('published formula', r, 1 - (1 - m.cosd(a))**5)
    m.eq('even in the angle', m.item(f(-a)), r)
    m.eq('1 at normal incidence', m.item(f(0.0)), 1)


def schlick_diffuse(m):
    t = m.real('tilt', 0.01, 179.9)
    sky, gnd = m.pv.iam.schlick_diffuse(t)
    sky, gnd = m.item(sky), m.item(gnd)
    m.obs('sky', sky), m.obs('gnd', gnd)
    c, s, pi = m.cosd(t), m.sind(t), m.np.pi
    k = 2 / (pi * (1 + c)) * (30 / 7 * pi - 160 / 21 * m.np.radians(t) - 10 / 3 * pi * c + 160 / 21 * c * s - 5 / 3 * pi * c * s**2
                              + 20 / 7 * c * s**3 - 5 / 16 * pi * c * s**4 + 16 / 105 * c * s**5)
    m.eq('published formula, sky', sky, k)
    m.eq('published formula, ground', gnd, 40 / (21 * (1 - c)) - (1 + c) / (1 - c) * k)


def schlick_diffuse_ends(m, kind):
    d = m.real('d', 0, 1e-7)
    f = m.pv.iam.schlick_diffuse
    for t, sk, gn in ((0.0, 20 / 21, 0.0), (90.0, 20 / 21, 20 / 21), (180.0, 0.0, 20 / 21)):
        s, g = f(t) if kind == 'scalar' else f(np.array([t, 30.])) if kind == 'array' else f(pd.Series([t, 30.]))
        s, g = (s, g) if kind == 'scalar' else (s[0], g[0])
        m.eq('sky at tilt %g' % t, m.item(s), sk)
        m.eq('ground at tilt %g' % t, m.item(g), gn)
    s, g = f(d)
    m.eq('no ground in view of a horizontal plane', m.item(g), 0)


def interp(m, npts, normalize, kind='scalar'):
    a = m.real('aoi', -90, 90)
    th = [0., 30., 60., 90.][:npts] if npts > 2 else [0., 90.]
    v = m.reals('iam', len(th), 0.1, 2)

    def spline(x, y, k=3):
        m.true('linear interpolation', k == 1)
        m.eq('reference angles', [q for q in x], th)
        m.eq('reference modifiers', [q for q in y], v)

        def at(q):
            for i in range(1, len(th)):
                if i == len(th) - 1 or q <= th[i]:
                    return y[i - 1] + (y[i] - y[i - 1]) * (q - th[i - 1]) / (th[i] - th[i - 1])

        def fn(q):
            if np.ndim(q) == 0:
                return at(m.item(q))
            return m.arr([at(e) for e in q])
        return fn
    m.stub('iam', 'make_interp_spline', spline)
    f = m.pv.iam.interp
    x = a if kind == 'scalar' else pd.Series([a], index=[4]) if kind == 'series' else m.arr([a])
    r = f(x, m.np.array(th), m.arr(v), normalize=normalize)
    if kind == 'series':
        m.true('series on the same index', isinstance(r, pd.Series) and list(r.index) == [4])
    r = m.item(r)
    b = abs(a)
    for i in range(1, len(th)):
        if i == len(th) - 1 or b <= th[i]:
            e = v[i - 1] + (v[i] - v[i - 1]) * (b - th[i - 1]) / (th[i] - th[i - 1])
            break
    e = e if e >= 0 else 0.0
    m.eq('linear interpolation of the magnitude of the angle', r, e / v[0] if normalize else e)
    m.ge('not negative', r, 0, 0)
    if normalize:
        m.eq('1 at normal incidence', m.item(f(0.0, m.np.array(th), m.arr(v))), 1)


def interp_bad(m):
    f = m.pv.iam.interp
    a = m.real('aoi', -90, 90)
    v = m.reals('iam', 2, 0.1, 1)
    m.raises('too few points', ValueError, f, a, [0.], [1.])
    m.raises('negative reference', ValueError, f, a, [0., 90.], m.arr([v[0], -v[1]]))
    m.raises('unknown method', ValueError, f, a, [0., 45., 90.], m.arr(v + [v[0]]), method='foo')


def marion(m, region, tilt):
    num = 6
    vals = {}

    def at(x):
        # one arbitrary value in [0, 1] per distinct angle (to 1e-6 degrees)
        k = round(float(x), 6)
        k = next((q for q in vals if abs(q - k) < 2e-6), k)
        if k not in vals:
            vals[k] = m.real('f(%.6f)' % k, 0, 1)
        return vals[k]

    def fn(aoi):
        A = np.asarray([float(q) for q in np.asarray(aoi).reshape(-1)])
        return m.arr([at(q) if q == q else float('nan') for q in A]).reshape(np.shape(aoi))
    r = m.item(m.pv.iam.marion_integrate(fn, tilt, region, num=num))
    # the same double sum over the region, written out
    ai, beta = np.pi / num, np.radians(tilt)
    phis = [k * ai for k in range(num)]
    phis = [p for p in phis if (p + ai <= np.pi / 2 + 1e-12 if region == 'sky' else p >= np.pi / 2 - 1e-12)]
    num_, den = 0.0, 0.0
    for p in phis:
        for k in range(2 * num):
            pa, qa = p + ai / 2, k * ai + ai / 2
            ca = np.cos(beta) * np.cos(pa) + np.sin(beta) * np.sin(pa) * np.cos(qa)
            w = ca * ai * (np.cos(p) - np.cos(p + ai)) if ca > 1e-12 else 0.0
            if w > 0:
                num_ = num_ + w * at(np.degrees(np.arccos(ca)))
            den += w
    if den == 0:
        m.eq('nothing of the region in view', r, 0)
        return
    m.eq('weighted average over the region', r, num_ / den)
    m.between('range', r, 0, 1)


def marion_wiring(m):
    got = []

    def integ(fun, tilt, region, num=None):
        got.append((tilt, region, m.item(fun(35.0))))
        return len(got)
    m.stub('iam', 'marion_integrate', integ)
    t, b = m.real('tilt', 0, 180), m.real('b', 0, 0.2)
    r = m.pv.iam.marion_diffuse('ashrae', t, b=b)
    m.true('three regions', sorted(r) == ['ground', 'horizon', 'sky'])
    for tilt, region, v in got:
        m.eq('tilt', tilt, t)
        m.true('each region stored under its name', r[region] == 1 + [g[1] for g in got].index(region))
        m.eq('the named model with the given parameters', v, m.item(m.pv.iam.ashrae(35.0, b)))
    m.raises('unknown model', ValueError, m.pv.iam.marion_diffuse, 'foo', t)


def jobs(tier):
    for k in ('scalar', 'array', 'series'):
        yield Job('ashrae ' + k, ashrae, params=dict(kind=k))
        yield Job('physical formula ' + k, physical, params=dict(what='formula', kind=k))
        yield Job('martin_ruiz ' + k, martin_ruiz, params=dict(kind=k))
        yield Job('schlick ' + k, schlick, params=dict(kind=k))
        yield Job('sapm ' + k, sapm, params=dict(upper=False, kind=k))
    yield Job('sapm upper', sapm, params=dict(upper=True))
    for n in (1.1, 1.3, 1.4, 1.526, 1.7, 2.0):
        yield Job('physical range, n=%g' % n, physical, params=dict(what='range', n=n))
    for w in ('normal', 'behind'):
        yield Job('physical ' + w, physical, params=dict(what=w))
    yield Job('physical, cover index 1', physical_vacuum)
    yield Job('physical, coating', physical_ar)
    yield Job('physical, coating limits', physical_ar_limits)
    yield Job('martin_ruiz, bad a_r', martin_ruiz_bad)
    for c in (False, True):
        yield Job('martin_ruiz_diffuse' + (', c2 given' if c else ''), martin_ruiz_diffuse, params=dict(c2given=c))
    for t in (0, 90, 180):
        yield Job('martin_ruiz_diffuse at tilt %d' % t, martin_ruiz_diffuse_ends, numpi=True, params=dict(t=t))
    yield Job('schlick_diffuse', schlick_diffuse)
    for k in ('scalar', 'array', 'series'):
        yield Job('schlick_diffuse ends ' + k, schlick_diffuse_ends, params=dict(kind=k))
    for n, z in ((2, True), (3, True), (4, True), (3, False)):
        yield Job('interp %d points%s' % (n, '' if z else ', not normalised'), interp, params=dict(npts=n, normalize=z))
    for k in ('array', 'series'):
        yield Job('interp ' + k, interp, params=dict(npts=3, normalize=True, kind=k))
    yield Job('interp, bad reference', interp_bad)
    for r in ('sky', 'ground'):
        for t in (0, 35, 90, 150, 180):
            yield Job('marion %s tilt %d' % (r, t), marion, numpi=True, params=dict(region=r, tilt=t))
    yield Job('marion wiring', marion_wiring)
