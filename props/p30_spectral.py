import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P30'
FUNCTIONS = ['spectrum.mismatch.' + f for f in ('spectral_factor_firstsolar', 'spectral_factor_sapm', 'spectral_factor_caballero', 'spectral_factor_pvspec',
                                                'spectral_factor_jrc', 'spectral_factor_polo', 'calc_spectral_mismatch_field')] + [
    'spectrum.response.sr_to_qe', 'spectrum.response.qe_to_sr', 'spectrum.irradiance.average_photon_energy', 'tools.normalize_max2one']
BOUNDS = ('every module type and arbitrary coefficients, precipitable water 0.01 to 20 cm, airmass 0.3 to 40, clearness 0.01 to 2, optical depth 0.01 to 3, any '
          'angle of incidence; scalars, arrays and series of 2 values; spectra of 3 to 4 wavelengths with arbitrary non-negative irradiance')
OUTSIDE = 'the values of the empirical coefficients against measurements; the reference spectrum file; SPECTRL2'
FS = {'cdte': (0.86273, -0.038948, -0.012506, 0.098871, 0.084658, -0.0042948), 'monosi': (0.85914, -0.020880, -0.0058853, 0.12029, 0.026814, -0.0017810),
      'polysi': (0.84090, -0.027539, -0.0079224, 0.13570, 0.038024, -0.0021218), 'cigs': (0.85252, -0.022314, -0.0047216, 0.13666, 0.013342, -0.0008945),
      'asi': (1.12094, -0.047620, -0.0083627, -0.10443, 0.098382, -0.0033818)}
FS['xsi'], FS['multisi'] = FS['monosi'], FS['polysi']
CAB = {'cdte': (1.0044, 0.0095, -0.0037, 0.0002, 0.0000, -0.0046, -0.0182, 0, 0.0095, 0.0068, 0, 1),
       'monosi': (0.9706, 0.0377, -0.0123, 0.0025, -0.0002, 0.0159, -0.0165, 0, -0.0016, -0.0027, 1, 0),
       'multisi': (0.9836, 0.0254, -0.0085, 0.0016, -0.0001, 0.0094, -0.0132, 0, -0.0002, -0.0011, 1, 0),
       'cigs': (0.9801, 0.0283, -0.0092, 0.0019, -0.0001, 0.0117, -0.0126, 0, -0.0011, -0.0019, 1, 0),
       'asi': (1.1060, -0.0848, 0.0302, -0.0076, 0.0006, -0.1283, 0.0986, -0.0254, 0.0156, 0.0146, 1, 0),
       'perovskite': (1.0637, -0.0491, 0.0180, -0.0047, 0.0004, -0.0773, 0.0583, -0.0159, 0.01251, 0.0109, 1, 0)}
PVSPEC = {'multisi': (0.9847, -0.05237, 0.03034), 'monosi': (0.9845, -0.05169, 0.03034), 'fs4-2': (1.002, -0.07108, 0.02465),
          'fs4-1': (0.9981, -0.05776, 0.02336), 'cigs': (0.9791, -0.03904, 0.03096), 'asi': (1.051, -0.1033, 0.009838)}
JRC = {'multisi': tuple(x / 0.00348 for x in (0.00172, 0.000508, 0.00000357)), 'cdte': tuple(x / 0.00115 for x in (0.000643, 0.000130, 0.0000108))}
POLO = {'cdte': (-0.0009, 46.80, 49.20, -0.87, 0.00041, 0.053, 0.0021, -0.01, 1.01), 'monosi': (0.0027, 10.34, 9.48, 0.31, 0.00077, 0.006, 0, -0.003, 1.0),
        'cigs': (0.0017, 2.33, 1.30, 0.11, 0.00098, -0.018, -0.0009, -0.0003, 1), 'asi': (0.0024, 7.32, 7.09, -0.72, -0.0013, 0.089, 0.0056, -0.020, 1.014)}
HC = 299792458.0 * 6.62607015e-34 / 1.602176634e-19 * 1e9


def values(m, kind, name, lo, hi):
    if kind == 'float':
        x = [m.real(name, lo, hi)]
        return x, x[0]
    x = m.reals(name, 2, lo, hi)
    return x, m.arr(x) if kind == 'array' else pd.Series(x, index=['a', 'b'])


def out(m, kind, r, index=True):
    if kind == 'series' and index:
        m.true('keeps the index', isinstance(r, pd.Series) and list(r.index) == ['a', 'b'])
    return [m.item(r)] if kind == 'float' else [r[i] if not isinstance(r, pd.Series) else r.iloc[i] for i in range(2)]


def given(m, table, module, n):
    """a module type (in any case) or arbitrary coefficients"""
    if module:
        return table[module], dict(module_type=module)
    c = [m.real('c%d' % i, -2, 2) for i in range(n)]
    return c, dict(coefficients=c)


def firstsolar(m, kind, module, limits):
    f = m.pv.spectrum.spectral_factor_firstsolar
    w, W = values(m, kind, 'w', 0.01, 20)
    a, AM = values(m, kind, 'am', 0.3, 40)
    c, kw = given(m, FS, module, 6)
    lim = (0.1, 8, 0.58, 10)
    if limits:
        lim = (m.real('wlo', 0.02, 1), m.real('whi', 2, 15), m.real('alo', 0.4, 1), m.real('ahi', 2, 20))
        kw.update(min_precipitable_water=lim[0], max_precipitable_water=lim[1], min_airmass_absolute=lim[2], max_airmass_absolute=lim[3])
    if module:
        kw['module_type'] = module.upper()
    r = f(W, AM, **kw)
    for x, p, q in zip(out(m, 'array' if kind != 'float' else kind, r if kind != 'float' else r[0]), w, a):
        q = m.np.maximum(m.np.minimum(q, lim[3]), lim[2])
        if p > lim[1]:
            m.nan('too much water', x)
        else:
            p = m.np.maximum(p, lim[0])
            m.eq('modifier', x, c[0] + c[1] * q + c[2] * p + c[3] * m.np.sqrt(q) + c[4] * m.np.sqrt(p) + c[5] * q / m.np.sqrt(p))


def sapm(m, kind, missing):
    a, AM = values(m, kind, 'am', 0.3, 40)
    A = [m.real('A%d' % i, -1, 1) for i in range(5)]
    if missing:
        AM = np.nan if kind == 'float' else m.arr([a[0], np.nan]) if kind == 'array' else pd.Series([a[0], np.nan], index=['a', 'b'])
    r = out(m, kind, m.pv.spectrum.spectral_factor_sapm(AM, dict(('A%d' % i, A[i]) for i in range(5))))
    for i, x in enumerate(r):
        if missing and i == len(r) - 1:
            m.eq('missing airmass', x, 0)
            continue
        p = sum(A[k] * a[i]**k for k in range(5))
        m.eq('polynomial', x, p if p > 0 else 0.0)
        m.ge('not negative', x, 0)


def caballero(m, kind, module):
    w, W = values(m, kind, 'w', 0.01, 20)
    a, AM = values(m, kind, 'am', 0.3, 40)
    t, AOD = values(m, kind, 'aod', 0, 3)
    c, kw = given(m, CAB, module, 12)
    r = out(m, kind, m.pv.spectrum.spectral_factor_caballero(W, AM, AOD, **kw))
    L = m.np.log
    for x, p, q, d in zip(r, w, a, t):
        e = c[0] + c[1] * q + c[2] * q**2 + c[3] * q**3 + c[4] * q**4
        e = e + (d - 0.084) * (c[5] + c[10] * c[6] * q + c[11] * c[6] * L(q) + c[7] * q**2) + (p - 1.4164) * (c[8] + c[9] * L(q))
        m.eq('modifier', x, e)


def pvspec(m, kind, module):
    k, K = values(m, kind, 'k', 0.01, 2)
    a, AM = values(m, kind, 'am', 0.3, 40)
    c, kw = given(m, PVSPEC, module, 3)
    if not module:
        c = [c[0], m.choice('e1', [-0.25, 0.5]), m.choice('e2', [0.125, -2])]
        kw = dict(coefficients=c)
    if module:
        kw['module_type'] = module.upper()
    r = out(m, kind, m.pv.spectrum.spectral_factor_pvspec(AM, K, **kw))
    for x, p, q in zip(r, k, a):
        m.eq('modifier', x, c[0] * p**c[1] * q**c[2])


def jrc(m, kind, module):
    k, K = values(m, kind, 'k', 0, 2)
    a, AM = values(m, kind, 'am', 0.3, 40)
    c, kw = given(m, JRC, module, 3)
    if module:
        kw['module_type'] = module.upper()
    r = out(m, kind, m.pv.spectrum.spectral_factor_jrc(AM, K, **kw))
    for x, p, q in zip(r, k, a):
        m.eq('modifier', x, 1 + c[0] * (m.np.exp(-p) - np.exp(-1)) + c[1] * (p - 1) + c[2] * (q - 1.5))


def polo(m, kind, module):
    w, W = values(m, kind, 'w', 0.01, 20)
    a, AM = values(m, kind, 'am', 0.5, 40)
    t, AOD = values(m, kind, 'aod', 0.01, 3)
    i, AOI = values(m, kind, 'aoi', 0, 180)
    P = m.real('pressure', 5e4, 1.1e5)
    c, kw = given(m, POLO, module, 9)
    al = m.real('albedo', 0, 1)

    def rel(z, model):
        m.true('front of the module', model == 'kastenyoung1989')
        f = lambda x: m.uf('airmass', x, lo=1, hi=38)
        return f(z) if kind == 'float' else m.arr([f(x) for x in z]) if kind == 'array' else pd.Series([f(x) for x in z], index=z.index)
    m.stub('atmosphere', 'get_relative_airmass', rel)
    if not module:
        c = [c[0], m.real('b1', 1, 60), m.real('b2', 1, 60), m.choice('c3', [-0.5, 0.31, 1.0])] + c[4:]
        kw['coefficients'] = c
    r = out(m, kind, m.pv.spectrum.spectral_factor_polo(W, AM, AOD, AOI, P, albedo=al, **kw))
    for x, p, q, d, z in zip(r, w, a, t, i):
        R = m.uf('airmass', m.np.minimum(z, 90), lo=1, hi=38) * P / 101325.0 / q
        s = c[0] * R + c[1] / (c[2] + R**c[3]) + c[4] / d + c[5] * m.np.sqrt(p)
        m.eq('modifier', x, (c[6] * (al / 0.2)**2 + c[7] * (al / 0.2) + c[8]) * s)


def arguments(m, model):
    S = m.pv.spectrum
    x = [m.real('x%d' % i, 0.5, 2) for i in range(5)]
    f = getattr(S, 'spectral_factor_' + model)
    n = {'firstsolar': 2, 'pvspec': 2, 'jrc': 2, 'caballero': 3, 'polo': 5}[model]
    E = TypeError if model == 'firstsolar' else ValueError
    m.raises('neither', E, f, *x[:n])
    m.raises('both', E, f, *x[:n], module_type='cdte', coefficients=[1] * 12)
    m.raises('unknown', KeyError, f, *x[:n], module_type='unobtainium')


def quantum(m, kind, normalize):
    R = m.pv.spectrum
    wl = [m.real('l0', 300, 400), m.real('l1', 450, 600), m.real('l2', 700, 1200)]
    v = m.reals('v', 3, 0.01, 1)
    if kind == 'series':
        wl = [300.0, 512.5, 1024.0]
        X, kw = pd.Series(v, index=wl), {}
    else:
        X, kw = m.arr(v), dict(wavelength=m.arr(wl))
    q, s = R.sr_to_qe(X, normalize=normalize, **kw), R.qe_to_sr(X, normalize=normalize, **kw)
    if kind == 'series':
        m.true('keeps the wavelengths', list(q.index) == wl and list(s.index) == wl)
        q, s = list(q), list(s)
    qe, sr = [a / b * HC for a, b in zip(v, wl)], [a * b / HC for a, b in zip(v, wl)]
    if normalize:
        mx = m.np.max(m.arr(qe)), m.np.max(m.arr(sr))
        qe, sr = [x / mx[0] for x in qe], [x / mx[1] for x in sr]
        m.eq('largest is one', m.np.max(m.arr(q)), 1)
        m.eq('largest is one', m.np.max(m.arr(s)), 1)
    for i in range(3):
        m.eq('quantum efficiency', q[i], qe[i])
        m.eq('spectral response', s[i], sr[i])
    if not normalize:
        kw = kw if kind == 'array' else dict(wavelength=np.array(wl))
        b = R.qe_to_sr(m.arr(q), **kw)
        for i in range(3):
            m.eq('inverse', b[i], v[i])


def quantum_raises(m):
    R = m.pv.spectrum
    v = m.arr(m.reals('v', 3, 0.01, 1))
    m.raises('qe without wavelengths', TypeError, R.sr_to_qe, v)
    m.raises('sr without wavelengths', TypeError, R.qe_to_sr, v)


def trap(x, y):
    return sum((x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2 for i in range(len(x) - 1))


def mismatch(m, kind):
    """weighted responsivity under the sun over that under the reference; no response outside the measured range"""
    wl, wr = [192.0, 448.0, 768.0], [384.0, 640.0, 896.0, 1152.0]
    ws = [256.0, 512.0, 1024.0]
    sr = m.reals('sr', 3, 0.01, 1)
    ref = m.reals('ref', 4, 0.01, 2)
    rows = 2 if kind == 'frame' else 1
    sun = [m.reals('sun%d' % k, 3, 0.01, 2) for k in range(rows)]
    E = pd.Series(sun[0], index=wl) if kind == 'series' else pd.DataFrame(sun, columns=wl, index=['p', 'q'])
    r = m.pv.spectrum.calc_spectral_mismatch_field(pd.Series(sr, index=ws), E, pd.Series(ref, index=wr))
    if kind == 'frame':
        m.true('times kept', list(r.index) == ['p', 'q'])
    r = [m.item(r)] if kind == 'series' else list(r)

    def resp(x):
        if x < ws[0] or x > ws[-1]:
            return 0.0
        i = 0 if x <= ws[1] else 1
        return sr[i] + (sr[i + 1] - sr[i]) * ((x - ws[i]) / (ws[i + 1] - ws[i]))
    ur = trap(wr, [a * resp(x) for a, x in zip(ref, wr)]) / trap(wr, ref)
    for k in range(rows):
        us = trap(wl, [a * resp(x) for a, x in zip(sun[k], wl)]) / trap(wl, sun[k])
        m.eq('mismatch', r[k], us / ur)


def reference(m):
    """the default reference is the global standard spectrum on the wavelengths of the sun's spectrum"""
    wl = [400.0, 500.0, 900.0]
    sr, sun = m.reals('sr', 3, 0.01, 1), m.reals('sun', 3, 0.01, 2)
    g = m.reals('g', 3, 0.01, 2)
    seen = []

    def std(wavelengths=None, standard='ASTM G173-03'):
        seen.append((list(wavelengths), standard))
        return pd.DataFrame({'extraterrestrial': [1.0] * 3, 'global': g, 'direct': [2.0] * 3}, index=wl)
    m.stub('spectrum', 'get_reference_spectra', std)
    r = m.pv.spectrum.calc_spectral_mismatch_field(pd.Series(sr, index=wl), pd.Series(sun, index=wl))
    m.true('reference wavelengths', seen == [(wl, 'ASTM G173-03')])
    us = trap(wl, [a * b for a, b in zip(sun, sr)]) / trap(wl, sun)
    ur = trap(wl, [a * b for a, b in zip(g, sr)]) / trap(wl, g)
    m.eq('mismatch', m.item(r), us / ur)


def photon(m, kind):
    wl = [300.0, 500.0, 900.0]
    rows = 2 if kind == 'frame' else 1
    sun = [m.reals('sun%d' % k, 3, 0.01, 2) for k in range(rows)]
    E = pd.Series(sun[0], index=wl) if kind == 'series' else pd.DataFrame(sun, columns=wl, index=['p', 'q'])
    r = m.pv.spectrum.average_photon_energy(E)
    if kind == 'frame':
        m.true('times kept', list(r.index) == ['p', 'q'])
    r = [m.item(r)] if kind == 'series' else list(r)
    for k in range(rows):
        n = trap(wl, [a * x for a, x in zip(sun[k], wl)]) / (6.62607015e-34 * 299792458.0 * 1e9)
        m.eq('energy per photon', r[k], trap(wl, sun[k]) / n / 1.602176634e-19, rtol=1e-9)
        m.between('between the photon energies', r[k], HC / wl[-1] - 1e-6, HC / wl[0] + 1e-6)


def photon_raises(m):
    wl = [300.0, 500.0]
    a, b = m.real('a', 0, 2), m.real('b', -2, -0.01)
    f = m.pv.spectrum.average_photon_energy
    m.raises('negative', ValueError, f, pd.Series([a, b], index=wl))
    m.raises('negative frame', ValueError, f, pd.DataFrame([[a, a], [b, a]], columns=wl))
    m.raises('not a table', TypeError, f, m.arr([a, a]))


def jobs(tier):
    for k in ('float', 'array', 'series'):
        for n, t, f in (('firstsolar', FS, firstsolar), ('caballero', CAB, caballero), ('pvspec', PVSPEC, pvspec), ('jrc', JRC, jrc), ('polo', POLO, polo)):
            for mod in [None] + (sorted(t) if k == 'array' else [sorted(t)[0]]):
                p = dict(kind=k, module=mod)
                if n == 'firstsolar':
                    p['limits'] = False
                yield Job('%s %s %s' % (n, k, mod), f, params=p)
        for mis in (False, True):
            yield Job('sapm %s%s' % (k, ' missing' if mis else ''), sapm, params=dict(kind=k, missing=mis))
    yield Job('firstsolar limits', firstsolar, params=dict(kind='array', module='cdte', limits=True))
    for n in ('firstsolar', 'pvspec', 'jrc', 'caballero', 'polo'):
        yield Job('arguments ' + n, arguments, params=dict(model=n))
    for k in ('array', 'series'):
        for n in (False, True):
            yield Job('quantum efficiency %s%s' % (k, ' normalized' if n else ''), quantum, params=dict(kind=k, normalize=n))
    yield Job('quantum efficiency raises', quantum_raises)
    for k in ('series', 'frame'):
        yield Job('mismatch ' + k, mismatch, params=dict(kind=k))
        yield Job('photon energy ' + k, photon, params=dict(kind=k))
    yield Job('mismatch reference', reference)
    yield Job('photon energy raises', photon_raises)
