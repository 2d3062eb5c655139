import calendar
import types
import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P25'
FUNCTIONS = ['clearsky.' + f for f in ('haurwitz', 'ineichen', 'simplified_solis', '_calc_i0p', '_calc_taub', '_calc_b', '_calc_taug', '_calc_g',
                                       '_calc_taud', '_calc_d', 'bird', 'lookup_linke_turbidity', '_interpolate_turbidity',
                                       '_calendar_month_middles')] + ['atmosphere.get_absolute_airmass', 'atmosphere.bird_hulstrom80_aod_bb']
BOUNDS = ('zenith 0 to 180 degrees, absolute airmass 0 to 40 or missing, Linke turbidity 1 to 10, altitude -400 to 6000 m, pressure 40 to 110 kPa, '
          'precipitable water 0 to 12 cm, aerosol optical depth 0 to 0.45, ozone 0 to 0.6, albedo 0 to 0.9; scalars, arrays and series of length 1 and 2; '
          'turbidity tables with arbitrary values for 24 dates in a leap year, a common year and both')
OUTSIDE = ('exponentials and powers are uninterpreted apart from sign and monotonicity lemmas (formulas are compared term by term); simplified Solis is '
           'dark at night for the listed aerosol and water values only; sign of the Bird components')


def wrap(m, kind, v):
    return v if kind == 'scalar' else m.arr([v]) if kind == 'array' else pd.Series([v], index=[3])


def get(m, kind, r, k):
    v = r[k]
    return v.loc[3] if isinstance(v, pd.Series) else m.item(v)


def haurwitz(m, part):
    z, y = m.real('z', 0, 180), m.real('y', 0, 180)
    if part == 'day':
        m.assume(m.cosd(z) > 0)
    r = m.pv.clearsky.haurwitz(pd.Series([z, y], index=[5, 2]))
    m.true('frame', isinstance(r, pd.DataFrame) and list(r.columns) == ['ghi'] and list(r.index) == [5, 2])
    for k, v in ((5, z), (2, y)):
        g = r['ghi'].loc[k]
        m.obs('g%d' % k, g)
        c = m.cosd(v)
        if c > 0:
            m.eq('formula', g, 1098.0 * c * m.np.exp(-0.059 / c))
            m.ge('not negative', g, 0)
        else:
            m.eq('dark', g, 0)


def ineichen(m, kind, perez, night):
    z = m.real('z', 90.001, 180) if night else m.real('z', 0, 89.99)
    tl, alt, ext = m.real('tl', 1, 10), m.real('alt', -400, 6000), m.real('ext', 1300, 1450)
    am = m.np.float64('nan') if night == 'missing' else m.real('am', 0.3, 40)
    r = m.pv.clearsky.ineichen(wrap(m, kind, z), wrap(m, kind, am), wrap(m, kind, tl) if kind != 'array' else tl, altitude=alt, dni_extra=ext,
                               perez_enhancement=perez)
    if kind == 'series':
        m.true('frame', isinstance(r, pd.DataFrame) and list(r.index) == [3] and list(r.columns) == ['ghi', 'dni', 'dhi'])
    g, b, d = [get(m, kind, r, k) for k in ('ghi', 'dni', 'dhi')]
    for n, v in (('ghi', g), ('dni', b), ('dhi', d)):
        m.obs(n, v)
        if night:
            m.eq(n + ' dark', v, 0)
    if night:
        return
    c = m.cosd(z)
    E = m.np.exp
    f1, f2 = E(-alt / 8000), E(-alt / 1250)
    e = E(-(3.92e-5 * alt + 0.0387) * am * (f1 + f2 * (tl - 1)))
    if perez:
        e = e * E(0.01 * am**1.8)
    G = (5.09e-5 * alt + 0.868) * ext * c * e
    m.eq('ghi formula', g, G)
    bn = ext * (0.664 + 0.163 / f1) * E(-0.09 * am * (tl - 1))
    k = 1 - (0.1 - 0.2 * E(-tl)) / (0.1 + 0.882 / f1)
    lim = G * m.np.minimum(m.np.maximum(k / c, 0), 1e20)
    m.eq('dni formula', b, m.np.minimum(bn, lim))
    m.eq('closure', g, d + b * c)
    m.ge('ghi', g, 0)
    m.ge('dni', b, 0)


def ineichen_diffuse(m):
    """the diffuse part is not negative: the beam never exceeds its upper limit"""
    z, tl, f1 = m.real('z', 0, 89.99), m.real('tl', 1, 10), m.real('am', 0.3, 40)
    r = m.pv.clearsky.ineichen(z, f1, tl, altitude=0)
    m.ge('dhi', r['dhi'], 0, tol=1e-6)
    m.obs('dhi', r['dhi'])


def solis_terms(m, w, a, p):
    ln, L = m.np.log, m.np.log
    lw, lp = ln(w), ln(p / 101325.0)
    i0 = 1.08 * w**0.0051 + 0.97 * w**0.032 * a + 0.12 * w**0.56 * a**2 + 0.071 * lp
    tb = (1.82 + 0.056 * lw + 0.0071 * lw**2) * a + 0.33 + 0.045 * lw + 0.0096 * lw**2 + (0.0089 * w + 0.13) * lp
    b = (0.00925 * a**2 + 0.0148 * a - 0.0172) * lw - 0.7565 * a**2 + 0.5057 * a + 0.4557
    tg = (1.24 + 0.047 * lw + 0.0061 * lw**2) * a + 0.27 + 0.043 * lw + 0.0090 * lw**2 + (0.0079 * w + 0.1) * lp
    g = -0.0147 * lw - 0.3079 * a**2 + 0.2846 * a + 0.3798
    if a < 0.05:
        td = (86 * w - 13800) * a**4 + (-3.11 * w + 79.4) * a**3 + (-0.23 * w + 74.8) * a**2 + (0.092 * w - 8.86) * a + 0.0042 * w + 3.12
        tdp = -0.83 * (1 + a)**(-17.2)
    else:
        td = (-0.21 * w + 11.6) * a**4 + (0.27 * w - 20.7) * a**3 + (-0.134 * w + 15.5) * a**2 + (0.0554 * w - 5.71) * a + 0.0057 * w + 2.94
        tdp = -0.71 * (1 + a)**(-15.0)
    td = td + tdp * lp
    d = -0.337 * a**2 + 0.63 * a + 0.116 + 1 / (18 + 152 * a) * lp
    return i0, tb, b, tg, g, td, d


def solis(m, kind, wet, mixed=False):
    el, a, p, ext = m.real('el', 0.5, 90), m.real('aod', 0, 0.45), m.real('p', 40000, 110000), m.real('ext', 1300, 1450)
    w = m.real('w', 0.2, 12) if wet else m.real('w', 0, 0.2)
    A, W = wrap(m, kind, a), wrap(m, kind, w)
    if mixed:
        W = w
    r = m.pv.clearsky.simplified_solis(wrap(m, kind, el), aod700=A, precipitable_water=W, pressure=p, dni_extra=ext)
    i0, tb, b, tg, g, td, d = solis_terms(m, m.np.maximum(w, 0.2), a, p)
    s = m.sind(el)
    E = m.np.exp
    G, B, D = [get(m, kind, r, k) for k in ('ghi', 'dni', 'dhi')]
    m.eq('ghi', G, ext * i0 * E(-tg / s**g) * s)
    m.eq('dni', B, ext * i0 * E(-tb / s**b))
    m.eq('dhi', D, ext * i0 * E(-td / s**d))
    m.obs('ghi', G)
    if kind == 'series':
        m.true('frame', isinstance(r, pd.DataFrame) and list(r.index) == [3])


def solis_two(m):
    """times do not mix"""
    el, a, w = m.reals('el', 2, 0.5, 90), m.reals('aod', 2, 0, 0.45), m.reals('w', 2, 0.2, 12)
    S = lambda v: pd.Series(v, index=[3, 8], dtype=object if m.symbolic else float)
    r = m.pv.clearsky.simplified_solis(S(el), aod700=S(a), precipitable_water=S(w), pressure=95000.0, dni_extra=1364.0)
    for i, t in enumerate((3, 8)):
        i0, tb, b, tg, g, td, d = solis_terms(m, w[i], a[i], 95000.0)
        s = m.sind(el[i])
        m.eq('dhi', r['dhi'].loc[t], 1364.0 * i0 * m.np.exp(-td / s**d))
        m.eq('ghi', r['ghi'].loc[t], 1364.0 * i0 * m.np.exp(-tg / s**g) * s)
        m.eq('dni', r['dni'].loc[t], 1364.0 * i0 * m.np.exp(-tb / s**b))


def solis_sign(m, a, w):
    el, ext = m.real('el', -90, 90), m.real('ext', 1300, 1450)
    r = m.pv.clearsky.simplified_solis(el, aod700=a, precipitable_water=w, dni_extra=ext)
    for k in ('ghi', 'dni', 'dhi'):
        v = m.item(r[k])
        m.obs(k, v)
        m.ge(k, v, 0)
        if el <= 0:
            m.le(k + ' dark', v, 1e-6)


def bird(m, kind, night):
    z = m.real('z', 90, 180) if night else m.real('z', 0, 89.999)
    am, p = m.real('am', 1, 38), m.real('p', 40000, 110000)
    a3, a5, w, o3 = m.real('a3', 0, 0.5), m.real('a5', 0, 0.5), m.real('w', 0, 12), m.real('o3', 0, 0.6)
    ext, asym, alb = m.real('ext', 1300, 1450), m.real('asym', 0.5, 0.95), m.real('alb', 0, 0.9)
    E = m.np.exp
    amp = am * p / 101325.0
    xo, xw = o3 * am, am * w
    ta = 0.27583 * a3 + 0.35 * a5
    tR = E(-0.0903 * amp**0.84 * (1 + amp - amp**1.01))
    tO = 1 - 0.1611 * xo * (1 + 139.48 * xo)**-0.3034 - 0.002715 * xo / (1 + 0.044 * xo + 0.0003 * xo**2)
    tU = E(-0.0127 * amp**0.26)
    tW = 1 - 2.4959 * xw / ((1 + 79.034 * xw)**0.6828 + 6.385 * xw)
    tA = E(-ta**0.873 * (1 + ta - ta**0.7088) * am**0.9108)
    tAA = 1 - 0.1 * (1 - am + am**1.06) * (1 - tA)
    rs = 0.0685 + (1 - asym) * (1 - tA / tAA)
    for den in (tAA, 1 - alb * rs, 1 - am + am**1.02):
        m.assume(den != 0)
    r = m.pv.clearsky.bird(wrap(m, kind, z), wrap(m, kind, am), a3, a5, wrap(m, kind, w), ozone=o3, pressure=p, dni_extra=ext, asymmetry=asym, albedo=alb)
    H, G, B, D = [get(m, kind, r, k) for k in ('direct_horizontal', 'ghi', 'dni', 'dhi')]
    if kind == 'series':
        m.true('frame', isinstance(r, pd.DataFrame) and list(r.index) == [3])
    m.obs('ghi', G)
    c = 0 if night else m.cosd(z)
    m.eq('dni', B, 0.9662 * ext * tA * tW * tU * tO * tR)
    m.eq('direct horizontal', H, B * c)
    m.eq('closure', G, D + B * c)
    if night:
        m.eq('no global', G, 0)
        m.eq('no diffuse', D, 0)
        return
    ias = ext * c * 0.79 * tO * tU * tW * tAA * (0.5 * (1 - tR) + asym * (1 - tA / tAA)) / (1 - am + am**1.02)
    m.eq('global', G, (H + ias) / (1 - alb * rs))


def turbidity(m, years, interp, tz='UTC'):
    tab = m.reals('lt', 12, 20, 200)

    class File:
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return {'LinkeTurbidity': self}

        def __exit__(self, *a):
            return None

        def __getitem__(self, ij):
            return m.arr(tab)
    m.stub('clearsky', 'h5py', types.SimpleNamespace(File=File))
    times = pd.DatetimeIndex(['%d-%02d-%02d 21:00' % (year, mo, d) for year in years for mo in range(1, 13) for d in (3, calendar.monthrange(year, mo)[1])], tz=tz)
    r = m.pv.clearsky.lookup_linke_turbidity(times, 32.0, -110.0, interp_turbidity=interp)
    m.true('index', list(r.index) == list(times))
    ext = [tab[11]] + tab + [tab[0]]
    for t in times:
        v = r.loc[t]
        t = t.tz_convert('UTC')
        if t.year not in years:
            continue
        n = [calendar.monthrange(t.year, k)[1] for k in range(1, 13)]
        start = np.cumsum([0] + n)
        mid = [-15.5] + [start[k] + n[k] / 2 for k in range(12)] + [start[12] + 15.5]
        if not interp:
            m.eq('month', v, tab[t.month - 1] / 20)
            continue
        x = t.dayofyear
        k = max(i for i in range(13) if mid[i] <= x)
        w = (x - mid[k]) / (mid[k + 1] - mid[k])
        m.eq('between the middles of the months', v, (ext[k] * (1 - w) + ext[k + 1] * w) / 20)


def jobs(tier):
    yield Job('haurwitz', haurwitz, params=dict(part='day'))
    yield Job('haurwitz all', haurwitz, params=dict(part='all'))
    for k in ('scalar', 'array', 'series'):
        for pz in (False, True):
            yield Job('ineichen %s %s' % (k, pz), ineichen, params=dict(kind=k, perez=pz, night=''), merge=True)
        yield Job('ineichen night ' + k, ineichen, params=dict(kind=k, perez=False, night='sun'))
        yield Job('ineichen night without airmass ' + k, ineichen, params=dict(kind=k, perez=True, night='missing'))
        for wet in (True, False):
            yield Job('solis %s %s' % (k, wet), solis, params=dict(kind=k, wet=wet))
        for n in (True, False):
            yield Job('bird %s %s' % (k, 'night' if n else 'day'), bird, params=dict(kind=k, night=n))
    yield Job('ineichen diffuse', ineichen_diffuse, merge=True)
    yield Job('solis mixed', solis, params=dict(kind='array', wet=True, mixed=True))
    yield Job('solis two times', solis_two)
    for a, w in ((0.0, 0.2), (0.02, 1.0), (0.1, 1.0), (0.4, 0.2), (0.4, 8.0)):
        yield Job('solis sign %s %s' % (a, w), solis_sign, params=dict(a=a, w=w))
    for y in (2020, 2021):
        for i in (True, False):
            yield Job('turbidity %d %s' % (y, i), turbidity, params=dict(years=[y], interp=i))
            yield Job('turbidity %d %s, local time' % (y, i), turbidity, params=dict(years=[y], interp=i, tz='Etc/GMT+7'))
    for ys in ([2020, 2021], [2023, 2024]):
        yield Job('turbidity %d and %d' % tuple(ys), turbidity, params=dict(years=ys, interp=True))
