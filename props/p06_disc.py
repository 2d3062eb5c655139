import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P06'
FUNCTIONS = ['irradiance.disc', 'irradiance._disc_kn', 'irradiance.clearness_index', 'atmosphere.get_absolute_airmass',
             'irradiance.dni', 'irradiance.complete_irradiance']
BOUNDS = ('GHI, DHI, DNI in [-50, 2000], zenith in [0, 180] degrees (completion [0, 89.9] or [90.1, 180] where it divides by the '
          'cosine), minimum cosine in [0.01, 0.3], maximum zenith in [60, 90], maximum airmass in [5, 20], pressure in '
          '[50000, 110000] or None, extraterrestrial irradiance arbitrary in [1300, 1430], relative airmass arbitrary in '
          '[1, 40] (checked elsewhere, P07); series of 2; exp uninterpreted positive increasing with rational bounds on demand')
OUTSIDE = 'DNI completion at exactly 90 degrees zenith'


def disc(m, pressure, what='formula'):
    ghi = m.real('ghi', -50, 2000) if what == 'formula' else 0.0
    z, extra = m.real('zen', 0, 180), m.real('extra', 1300, 1430)
    mc, mz, ma = m.real('mc', 0.01, 0.3), m.real('mz', 60, 90), m.real('ma', 5, 20)
    am0 = m.real('am', 1, 40)
    p = m.real('p', 50000, 110000) if pressure else None
    asked = []

    def get(d, c=1366.1, method='spencer', **k):
        asked.append((d, c, method))
        return extra

    def rel(zz, model='kastenyoung1989'):
        m.true('Kasten 1966 airmass', model == 'kasten1966')
        m.eq('airmass of the given zenith', zz, z)
        return am0 if z <= 90 else float('nan')
    m.stub('irradiance', 'get_extra_radiation', get)
    m.stub('atmosphere', 'get_relative_airmass', rel)
    r = m.pv.irradiance.disc(ghi, z, 100, pressure=p, min_cos_zenith=mc, max_zenith=mz, max_airmass=ma)
    dni, kt, am = m.item(r['dni']), m.item(r['kt']), m.item(r['airmass'])
    m.obs('dni', dni), m.obs('kt', kt)
    m.true('solar constant 1370, Spencer, the given day', asked == [(100, 1370.0, 'spencer')])
    m.notnan('DNI is a number', dni)
    m.ge('DNI is not negative', dni, 0, 0)
    m.between('clearness index', kt, 0, 1, 0)
    if z > mz or ghi < 0:
        m.eq('no beam at night or for negative GHI', dni, 0)
    if z > 90:
        m.nan('no airmass below the horizon', am)
        return
    a = am0 * p / 101325. if pressure else am0
    a = a if a <= ma else ma
    m.eq('airmass capped', am, a)
    if what == 'dark':
        m.eq('no beam without GHI', dni, 0, atol=0.05)
        return
    cz = m.cosd(z)
    k = ghi / (extra * (cz if cz >= mc else mc))
    k = 0.0 if k < 0 else 1.0 if k > 1 else k
    m.eq('clearness index', kt, k)
    if z > mz or ghi < 0:
        return
    if k <= 0.6:
        A = 0.512 - 1.56 * k + 2.286 * k**2 - 2.222 * k**3
        B = 0.37 + 0.962 * k
        C = -0.28 + 0.932 * k - 2.048 * k**2
    else:
        A = -5.743 + 21.77 * k - 27.49 * k**2 + 11.56 * k**3
        B = 41.4 - 118.5 * k + 66.05 * k**2 + 31.9 * k**3
        C = -47.01 + 184.2 * k - 222.0 * k**2 + 73.81 * k**3
    knc = 0.866 - 0.122 * a + 0.0121 * a**2 - 0.000653 * a**3 + 1.4e-05 * a**4
    e = (knc - (A + B * m.np.exp(C * a))) * extra
    m.eq('published formula', dni, e if e >= 0 else 0.0)


def dark(m):
    """the DISC transmittance of a zero clearness index is not positive"""
    am = m.real('am', 1, 20)
    kn, a = m.pv.irradiance._disc_kn(0.0, am)
    m.le('no beam without GHI', m.item(kn), 0.0)
    m.eq('airmass capped at 12', m.item(a), am if am <= 12 else 12)


def close(m, missing, clear=False):
    z = m.reals('zen', 2, 0, 180)
    n = [v for v in ('ghi', 'dhi', 'dni') if v != missing]
    v = {k: m.reals(k, 2, -50, 2000) for k in n}
    idx = pd.date_range('2020-06-01 10:00', periods=2, freq='h')
    s = {k: pd.Series(x, index=idx) for k, x in v.items()}
    zs = pd.Series(z, index=idx)
    r = m.pv.irradiance.complete_irradiance(zs, **s)
    m.true('the three components', sorted(r.columns) == ['dhi', 'dni', 'ghi'] and list(r.index) == list(idx))
    for i in range(2):
        g, h, b = (r[k].iloc[i] for k in ('ghi', 'dhi', 'dni'))
        for k, y in (('ghi', g), ('dhi', h), ('dni', b)):
            if k != missing:
                m.eq('a given component is kept: ' + k, y, v[k][i])
        m.eq('GHI = DHI + DNI x cos(zenith)', g, h + b * m.cosd(z[i]))
    for k in n:
        m.eq('inputs not modified', [x for x in s[k]], v[k])


def dni(m, clear, z0=88.0, z1=80.0, custom=False):
    z = m.real('zen', 0, 89.95)
    g, h = m.real('ghi', -50, 2000), m.real('dhi', -50, 2000)
    idx = pd.date_range('2020-06-01 10:00', periods=1, freq='h')
    S = lambda x: pd.Series([x], index=idx)
    tol = 1.1
    k = {}
    if custom:
        z0, z1, tol = m.real('z0', 80, 89.9), m.real('z1', 60, 85), m.real('tol', 1, 1.5)
        k = dict(clearsky_tolerance=tol, zenith_threshold_for_zero_dni=z0, zenith_threshold_for_clearsky_limit=z1)
    cl = m.real('clear', 0, 1500)
    G, H, Z = S(g), S(h), S(z)
    if custom or clear == 'dni':
        r = m.pv.irradiance.dni(G, H, Z, dni_clear=S(cl) if clear else None, **k).iloc[0]
    else:
        r = m.pv.irradiance.complete_irradiance(Z, ghi=G, dhi=H, dni_clear=S(cl) if clear else None)['dni'].iloc[0]
    d = (g - h) / m.cosd(z)
    m.eq('inputs not modified', [G.iloc[0], H.iloc[0], Z.iloc[0]], [g, h, z])
    if d < 0 or (z >= z0 and d != 0):
        m.nan('impossible or horizon DNI is dropped', r)
        return
    m.notnan('a number', r)
    m.ge('DNI is not negative', r, 0, 0)
    if clear and z >= z1 and z < z0 and d > tol * cl:
        m.eq('limited to the clear-sky value times the tolerance', r, tol * cl)
    else:
        m.eq('DNI closes the balance', r, d)


def wrong(m):
    z, a = pd.Series([30., 40.]), pd.Series([100., 200.])
    f = m.pv.irradiance.complete_irradiance
    for k in ({}, dict(ghi=a), dict(dhi=a), dict(dni=a), dict(ghi=a, dhi=a, dni=a)):
        m.raises('exactly one component must be missing: %s' % sorted(k), ValueError, f, z, **k)


def jobs(tier):
    yield Job('disc', disc, params=dict(pressure=True))
    yield Job('disc, no pressure', disc, params=dict(pressure=False))
    yield Job('disc without GHI', dark)
    for k in ('ghi', 'dhi'):
        yield Job('complete ' + k, close, params=dict(missing=k))
    for c in (None, True):
        yield Job('complete dni%s' % (', clear-sky limit' if c else ''), dni, params=dict(clear=c))
    for c in (None, 'dni'):
        yield Job('dni custom limits%s' % (', clear-sky limit' if c else ''), dni, params=dict(clear=c, custom=True))
    yield Job('dni defaults', dni, params=dict(clear='dni'))
    yield Job('wrong number of components', wrong)
