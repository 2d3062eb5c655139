import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P05'
FUNCTIONS = ['irradiance.clearness_index', 'irradiance.clearsky_index', 'irradiance.clearness_index_zenith_independent',
             'irradiance._kt_kt_prime_factor']
BOUNDS = ('irradiances in [-100, 2000] (clear-sky also exactly 0) and NaN, +inf, -inf; zenith in [0, 180] degrees; minimum '
          'cosine in [0.01, 0.3]; maxima in [0.5, 3]; airmass in [0.5, 40] or NaN; scalars, arrays and series of 2; exp uninterpreted')
OUTSIDE = 'zero or negative extraterrestrial irradiance'
SPECIAL = {'NaN': float('nan'), '+inf': float('inf'), '-inf': float('-inf')}


def clamp(x, lo, hi):
    return lo if x < lo else hi if x > hi else x


def clearness(m):
    ghi, z, e = m.real('ghi', -100, 2000), m.real('zen', 0, 180), m.real('extra', 1300, 1430)
    mc, mx = m.real('mc', 0.01, 0.3), m.real('mx', 0.5, 3)
    r = m.item(m.pv.irradiance.clearness_index(ghi, z, e, min_cos_zenith=mc, max_clearness_index=mx))
    m.obs('kt', r)
    cz = m.cosd(z)
    m.eq('clamped ratio', r, clamp(ghi / (e * (cz if cz >= mc else mc)), 0.0, mx))
    m.between('range', r, 0, mx, 0)


def clearness_defaults(m):
    ghi, z, e = m.real('ghi', -100, 2000), m.real('zen', 0, 180), m.real('extra', 1300, 1430)
    r = m.item(m.pv.irradiance.clearness_index(ghi, z, e))
    m.obs('kt', r)
    cz = m.cosd(z)
    m.eq('clamped ratio, documented limits', r, clamp(ghi / (e * (cz if cz >= 0.065 else 0.065)), 0.0, 2.0))


def clearness_arr(m, kind):
    ghi, z, e = [[m.real(n + k, lo, hi) for k in 'ab'] for n, lo, hi in
                 (('ghi', -100, 2000), ('zen', 0, 180), ('extra', 1300, 1430))]
    mk = m.arr if kind == 'array' else pd.Series
    r = m.pv.irradiance.clearness_index(mk(ghi), mk(z), mk(e))
    m.true('length', len(r) == 2)
    for i in range(2):
        cz = m.cosd(z[i])
        m.eq('clamped ratio, element', r[i], clamp(ghi[i] / (e[i] * (cz if cz >= 0.065 else 0.065)), 0.0, 2.0))


def clearsky(m, default=False):
    g, c = m.real('ghi', -100, 2000), m.real('clear', -100, 2000)
    mx = 2.0 if default else m.real('mx', 0.5, 3)
    k = {} if default else dict(max_clearsky_index=mx)
    r = m.item(m.pv.irradiance.clearsky_index(g, c, **k))
    m.obs('kc', r)
    m.between('range', r, 0, mx, 0)
    m.eq('clamped ratio, zero without clear-sky irradiance', r, 0.0 if c == 0 else clamp(g / c, 0.0, mx))


def clearsky_special(m, g, c):
    x, y = m.real('x', -100, 2000), m.real('y', -100, 2000)
    r = m.item(m.pv.irradiance.clearsky_index(SPECIAL.get(g, x), SPECIAL.get(c, y)))
    m.nan('non-finite input gives NaN, never infinity', r)


def clearsky_arr(m, kind):
    g, c = m.reals('ghi', 2, -100, 2000), m.reals('clear', 2, -100, 2000)
    mk = m.arr if kind == 'array' else (lambda v: pd.Series(v, index=[3, 7]))
    gg, cc = mk(g), mk(c)
    r = m.pv.irradiance.clearsky_index(gg, cc)
    if kind == 'series':
        m.true('a series comes back on its own index', isinstance(r, pd.Series) and list(r.index) == [3, 7])
    for i, v in enumerate(r):
        m.eq('clamped ratio, element', v, 0.0 if c[i] == 0 else clamp(g[i] / c[i], 0.0, 2.0))
    m.eq('GHI not modified', [x for x in gg], g)
    m.eq('clear-sky GHI not modified', [x for x in cc], c)


def ktprime(m):
    kt, am, mx = m.real('kt', -0.5, 3), m.real('am', 0.5, 40), m.real('mx', 0.5, 3)
    r = m.item(m.pv.irradiance.clearness_index_zenith_independent(kt, am, max_clearness_index=mx))
    m.obs('ktp', r)
    m.between('range', r, 0, mx, 0)
    f = 1.031 * m.np.exp(-1.4 / (0.9 + 9.4 / am)) + 0.1
    m.eq('clamped ratio', r, clamp(kt / f, 0.0, mx))
    m.nan('NaN airmass', m.item(m.pv.irradiance.clearness_index_zenith_independent(kt, float('nan'))))
    m.eq('documented limit', m.item(m.pv.irradiance.clearness_index_zenith_independent(kt, am)), clamp(kt / f, 0.0, 2.0))


def ktprime_one(m):
    """the correction is one (to 1%) at airmass 1"""
    kt = m.real('kt', 0, 1)
    r = m.item(m.pv.irradiance.clearness_index_zenith_independent(kt, 1.0))
    m.le('about the clearness index at airmass 1', r, kt * 1.001)
    m.ge('about the clearness index at airmass 1', r, kt * 0.989)


def jobs(tier):
    yield Job('clearness_index', clearness)
    yield Job('clearness_index defaults', clearness_defaults)
    for k in ('array', 'series'):
        yield Job('clearness_index ' + k, clearness_arr, params=dict(kind=k))
        yield Job('clearsky_index ' + k, clearsky_arr, params=dict(kind=k))
    yield Job('clearsky_index', clearsky)
    yield Job('clearsky_index default', clearsky, params=dict(default=True))
    for s in SPECIAL:
        yield Job('clearsky_index, GHI ' + s, clearsky_special, params=dict(g=s, c=None))
        yield Job('clearsky_index, clear-sky ' + s, clearsky_special, params=dict(g=None, c=s))
    yield Job('zenith independent', ktprime)
    yield Job('zenith independent at airmass 1', ktprime_one)
