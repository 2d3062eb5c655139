import numpy as np
import pandas as pd
from scipy import constants
from pvsym.cli import Job
PROPERTY = 'P16'
FUNCTIONS = ['pvsystem.pvwatts_dc', 'pvsystem.pvwatts_losses', 'pvsystem.sapm', 'pvsystem.sapm_effective_irradiance',
             'pvsystem.scale_voltage_current_power', 'pvsystem.dc_ohms_from_percent', 'pvsystem.dc_ohmic_losses',
             'pvsystem.combine_loss_factors', 'pvarray.pvefficiency_adr', 'pvarray.huld', 'pvarray._infer_k_huld', 'pvarray.batzelis']
BOUNDS = ('irradiance in [0, 2000] W/m2 and exactly 0, temperature in [-60, 120] C, every model parameter in a box around the physical '
          'values (see the harness), losses in [0, 100] percent; scalars, arrays and series of 2 elements; combined losses: 2 series with '
          'different time stamps; logarithm and exponential uninterpreted (monotone, inverse to each other); Lambert W: any positive value')
OUTSIDE = 'least-squares fits (fit_pvefficiency_adr), databases (retrieve_sam)'
KINDS = ('scalar', 'array', 'series')
IDX = pd.DatetimeIndex(['2020-06-01 10:00', '2020-06-01 11:00'], tz='Etc/GMT+7')


def weather(m, kind, lo=0, lo_open=False):
    n = 1 if kind == 'scalar' else 2
    G = [m.real('g%d' % k, lo, 2000, lo_open=lo_open) for k in range(n)]
    T = [m.real('t%d' % k, -60, 120) for k in range(n)]
    f = {'scalar': lambda a: a[0], 'array': m.arr, 'series': lambda a: pd.Series(a, index=IDX)}[kind]
    return G, T, f(G), f(T)


def same(m, kind, r, n):
    """the container of the result; -> list of elements"""
    if kind == 'scalar':
        return [m.item(r)]
    if kind == 'series':
        m.true('series with the index of the inputs', isinstance(r, pd.Series) and r.index.equals(IDX))
    else:
        m.true('array', isinstance(r, np.ndarray) and np.shape(r) == (2,))
    return [np.asarray(r)[k] for k in range(n)]


def pvwatts(m, kind, var):
    G, T, g, t = weather(m, kind)
    P, gam = m.real('pdc0', 1, 1e6), m.real('gamma', -0.01, 0.002)
    kw, ref, k = {}, 25.0, None
    if var != 'plain':
        ref = kw['temp_ref'] = m.real('tref', 0, 50)
        k = kw['k'] = m.real('k', -0.05, 0.05)
        if var == 'cap':
            kw['cap_adjustment'] = True
    r = same(m, kind, m.pv.pvsystem.pvwatts_dc(g, t, P, gam, **kw), len(G))
    for i in range(len(G)):
        e = G[i] / 1000 * P * (1 + gam * (T[i] - ref))
        if k is not None:
            er = k * (1 - (1 - G[i] / 200)**4) if G[i] <= 200 else k * (1000 - G[i]) / 800
            if var == 'cap':
                er = 0 if G[i] >= 1000 else er
            e = e - P * er
            e = 0 if e < 0 else e
            m.ge('not negative', r[i], 0)
        m.obs('pdc', r[i])
        m.eq('dc power', r[i], e)


def losses(m):
    names = ['soiling', 'shading', 'snow', 'mismatch', 'wiring', 'connections', 'lid', 'nameplate_rating', 'age', 'availability']
    v = {n: m.real(n, 0, 100) for n in names}
    r = m.pv.pvsystem.pvwatts_losses(**v)
    p = 1
    for n in names:
        p = p * (1 - v[n] / 100)
    m.eq('losses compose', r, 100 * (1 - p))
    r = m.pv.pvsystem.pvwatts_losses()
    m.eq('default losses', r, 100 * (1 - 0.98 * 0.97 * 0.98 * 0.98 * 0.995 * 0.985 * 0.99 * 0.97))
    a, b = m.real('a', 0, 100), m.real('b', 0, 100)
    r = m.pv.pvsystem.pvwatts_losses(soiling=m.arr([a, b]), shading=10, snow=0, mismatch=0, wiring=0, connections=0, lid=0, nameplate_rating=0, age=0, availability=0)
    for k, x in enumerate((a, b)):
        m.eq('element', r[k], 100 - 0.9 * (100 - x))
        m.between('within [0, 100]', r[k], 0, 100)


def ohmic(m):
    v, i, pc = m.real('vmp', 1, 100), m.real('imp', 0.1, 20), m.real('pc', 0, 10)
    ns, npar, c = m.real('mods', 1, 40), m.real('strings', 1, 100), m.real('c', 0, 500)
    f = m.pv.pvsystem
    R = f.dc_ohms_from_percent(v, i, pc, ns, npar)
    m.eq('wiring resistance', R, pc / 100 * (ns * v) / (npar * i))
    m.eq('default string', f.dc_ohms_from_percent(v, i, pc), pc / 100 * v / i)
    m.eq('power loss', f.dc_ohmic_losses(R, c), R * c**2)
    # the percentage refers to the power at reference conditions
    m.eq('loss at reference', f.dc_ohmic_losses(R, npar * i), pc / 100 * (ns * v) * (npar * i))


def combine(m):
    ix = pd.date_range('2020-06-01 10:00', periods=4, freq='1h', tz='Etc/GMT+7')
    a = [m.real('a%d' % k, 0, 1) for k in range(2)]
    b = [m.real('b%d' % k, 0, 1) for k in range(4)]
    A, B = pd.Series(a, index=ix[[0, 2]]), pd.Series(b, index=ix)
    r = m.pv.pvsystem.combine_loss_factors(ix, A, B)
    m.true('index', r.index.equals(ix))
    for k, x in enumerate((a[0], a[0], a[1], a[1])):
        m.eq('losses compose', r.iloc[k], 1 - (1 - x) * (1 - b[k]))
        m.between('within [0, 1]', r.iloc[k], 0, 1)
    m.eq('single loss', m.pv.pvsystem.combine_loss_factors(ix, B).iloc[2], b[2])


def scale(m):
    v, c = m.real('v', 1, 40), m.real('c', 1, 100)
    cols = ['i_mp', 'v_oc', 'p_mp', 'i_sc', 'v_mp', 'i_xx', 'i_x']
    vals = {k: [m.real('%s%d' % (k, j), 0, 500) for j in range(2)] for k in cols}
    df = pd.DataFrame(vals, index=IDX, columns=cols)
    for names, data in (('all', df), ('some', df[['v_mp', 'i_mp', 'p_mp']])):
        r = m.pv.pvsystem.scale_voltage_current_power(data, voltage=v, current=c)
        m.true('same columns and index', list(r.columns) == list(data.columns) and r.index.equals(IDX))
        for k in data.columns:
            f = {'v': v, 'i': c, 'p': v * c}[k[0]]
            for j in range(2):
                m.eq('%s scaled' % k, r[k].iloc[j], vals[k][j] * f)
                m.true('input unchanged', data[k].iloc[j] is vals[k][j] or bool(data[k].iloc[j] == vals[k][j]))
    r = m.pv.pvsystem.scale_voltage_current_power(df)
    for k in cols:
        m.eq('unscaled by default', r[k].iloc[1], vals[k][1])


def module(m, x):
    p = {k: m.real(k, lo, hi) for k, lo, hi in (
        ('Isco', 0.1, 20), ('Impo', 0.1, 20), ('Voco', 1, 200), ('Vmpo', 1, 200), ('Aisc', -0.005, 0.005), ('Aimp', -0.005, 0.005),
        ('Bvoco', -1, 0), ('Mbvoc', -0.1, 0.1), ('Bvmpo', -1, 0), ('Mbvmp', -0.1, 0.1), ('N', 0.5, 3), ('C0', 0.8, 1.2), ('C1', -0.2, 0.2),
        ('C2', -2, 2), ('C3', -50, 5), ('Cells_in_Series', 1, 200))}
    if x:
        p.update({k: m.real(k, lo, hi) for k, lo, hi in (('IXO', 0.1, 20), ('IXXO', 0.1, 20), ('C4', 0.8, 1.2), ('C5', -0.2, 0.2),
                                                         ('C6', 0.8, 1.3), ('C7', -0.3, 0.2))})
    return p


def sapm(m, kind, x, opts):
    G, T, g, t = weather(m, kind, 1 if kind == 'scalar' else 0)
    p = module(m, x)
    kw = dict(temperature_ref=m.real('tref', 0, 50), irradiance_ref=m.real('gref', 500, 1500)) if opts else {}
    r = m.pv.pvsystem.sapm(g, t, p, **kw)
    names = ['i_sc', 'i_mp', 'v_oc', 'v_mp', 'p_mp'] + (['i_x', 'i_xx'] if x else [])
    m.true('outputs', set(r.keys()) == set(names))
    o = {k: same(m, kind, r[k], len(G)) for k in names}
    for k in range(len(G)):
        dark = bool(G[k] == 0)
        q = {c: o[c][k] for c in names}
        E, d = G[k] / kw.get('irradiance_ref', 1000), T[k] - kw.get('temperature_ref', 25)
        e = dict(i_sc=p['Isco'] * E * (1 + p['Aisc'] * d), i_mp=p['Impo'] * (p['C0'] * E + p['C1'] * E**2) * (1 + p['Aimp'] * d))
        if x:
            e.update(i_x=p['IXO'] * (p['C4'] * E + p['C5'] * E**2) * (1 + p['Aisc'] * d),
                     i_xx=p['IXXO'] * (p['C6'] * E + p['C7'] * E**2) * (1 + p['Aimp'] * d))
        if dark:
            for c in names:
                m.eq('no light: ' + c, q[c], 0)
            continue
        L = p['N'] * constants.k * (T[k] + 273.15) / constants.e * m.np.log(E)
        voc = p['Voco'] + p['Cells_in_Series'] * L + (p['Bvoco'] + p['Mbvoc'] * (1 - E)) * d
        vmp = p['Vmpo'] + p['C2'] * p['Cells_in_Series'] * L + p['C3'] * p['Cells_in_Series'] * L**2 + (p['Bvmpo'] + p['Mbvmp'] * (1 - E)) * d
        e.update(v_oc=0 if voc < 0 else voc, v_mp=0 if vmp < 0 else vmp)
        for c in e:
            m.eq(c, q[c], e[c], rtol=1e-7, atol=1e-7)
        m.eq('power', q['p_mp'], q['v_mp'] * q['i_mp'])


def sapm_dark(m, kind):
    """no light: every output is zero"""
    t, p = m.real('t', -60, 120), module(m, True)
    f = {'scalar': lambda a: a, 'array': lambda a: m.arr([a]), 'series': lambda a: pd.Series([a], index=IDX[:1])}[kind]
    r = m.pv.pvsystem.sapm(f(np.float64(0.0)), f(t), p)
    for k in r.keys():
        m.eq(k, m.item(r[k] if kind == 'scalar' else np.asarray(r[k])), 0)


def effective(m, kind):
    """SAPM effective irradiance"""
    n = 1 if kind == 'scalar' else 2
    b, d = [m.real('b%d' % k, 0, 1500) for k in range(n)], [m.real('d%d' % k, 0, 1000) for k in range(n)]
    am, a = [m.real('am%d' % k, 0, 40) for k in range(n)], [m.real('aoi%d' % k, 0, 180) for k in range(n)]
    mod = {'FD': m.real('FD', 0, 1.5)}
    # both modifiers are decided elsewhere (P08, P30)
    el = (lambda f: f) if kind == 'scalar' else (lambda f: lambda x, *r, **k: m.arr([f(e, *r, **k) for e in np.asarray(x)]))
    m.stub('iam', 'sapm', el(lambda x, module, upper=None: m.uf('iam', x)))
    m.stub('spectrum', 'spectral_factor_sapm', el(lambda x, module: m.uf('f1', x)))
    f = {'scalar': lambda x: x[0], 'array': m.arr, 'series': lambda x: pd.Series(x, index=IDX)}[kind]
    r = same(m, kind, m.pv.pvsystem.sapm_effective_irradiance(f(b), f(d), f(am), f(a), mod), n)
    for k in range(n):
        m.eq('effective irradiance', r[k], m.uf('f1', am[k]) * (b[k] * m.uf('iam', a[k]) + mod['FD'] * d[k]))


def adr(m, kind):
    G, T, g, t = weather(m, kind)
    p = dict(k_a=m.real('ka', 0.1, 110), k_d=m.real('kd', -12, -0.5), tc_d=m.real('tcd', -0.05, 0.05), k_rs=m.real('krs', 0, 1), k_rsh=m.real('krsh', 0, 1))
    r = same(m, kind, m.pv.pvarray.pvefficiency_adr(g, t, **p), len(G))
    e10 = lambda x: m.np.power(10.0, x)
    for k in range(len(G)):
        s, dt = G[k] / 1000, T[k] - 25
        so, sr = e10(p['k_d'] + p['tc_d'] * dt), e10(p['k_d'])
        v = m.np.log(s / so + 1) / m.np.log(1 / sr + 1)
        m.eq('efficiency', r[k], p['k_a'] * ((1 + p['k_rs'] + p['k_rsh']) * v - p['k_rs'] * s - p['k_rsh'] * v**2), rtol=1e-9)
    if kind == 'scalar':
        m.eq('at reference', m.item(m.pv.pvarray.pvefficiency_adr(1000., 25., **p)), p['k_a'])
        m.eq('without light', m.item(m.pv.pvarray.pvefficiency_adr(0., t, **p)), 0)


HULD = {
    'pvgis5': {'csi': (-0.017237, -0.040465, -0.004702, 0.000149, 0.000170, 0.000005),
               'cis': (-0.005554, -0.038724, -0.003723, -0.000905, -0.001256, 0.000001),
               'cdte': (-0.046689, -0.072844, -0.002262, 0.000276, 0.000159, -0.000006)},
    'pvgis6': {'csi': (-0.0067560, -0.016444, -0.003015, -0.000045, -0.000043, 0.),
               'cis': (-0.011001, -0.029734, -0.002887, 0.000217, -0.000163, 0.),
               'cdte': (-0.020644, -0.035136, -0.003406, 0.000073, -0.000141, 0.000002)}}


def huld(m, kind, how):
    G, T, g, t = weather(m, kind)
    P = m.real('pdc0', 1, 1e6)
    if how == 'k':
        k = tuple(m.real('k%d' % i, -0.1, 0.1) for i in range(6))
        kw = dict(k=k)
    else:
        ver, cell = how
        k = [x * P for x in HULD[ver.lower()][cell.lower()]]
        kw = dict(cell_type=cell) if ver == 'pvgis5' else dict(cell_type=cell, k_version=ver)
    r = same(m, kind, m.pv.pvarray.huld(g, t, P, **kw), len(G))
    for i in range(len(G)):
        s, d = G[i] / 1000, T[i] - 25
        if s > 0:
            L = m.np.log(s)
            m.eq('power', r[i], s * (P + k[0] * L + k[1] * L**2 + k[2] * d + k[3] * d * L + k[4] * d * L**2 + k[5] * d**2), rtol=1e-9)
        else:
            m.eq('no light', r[i], 0)
    if kind == 'scalar':
        m.eq('at reference', m.item(m.pv.pvarray.huld(1000., 25., P, **kw)), P)


def huld_bad(m):
    f = m.pv.pvarray.huld
    P = m.real('P', 1, 1000)
    m.raises('neither coefficients nor cell type', ValueError, f, 1000., 25., P)
    m.raises('unknown cell type', KeyError, f, 1000., 25., P, cell_type='nope')
    m.raises('unknown version', ValueError, f, 1000., 25., P, cell_type='csi', k_version='pvgis9')


def batzelis(m, kind, light):
    """translation of the datasheet points to irradiance and temperature"""
    n = 1 if kind == 'scalar' else 2
    G, T, g, t = weather(m, kind, 0, lo_open=light)
    if not light:
        z = np.float64(0.0)
        G, g = [z] * n, {'scalar': z, 'array': m.arr([z, z]), 'series': pd.Series([z] * n, index=IDX[:n])}[kind]
    p = dict(v_mp=m.real('vmp', 5, 100), i_mp=m.real('imp', 0.1, 15), v_oc=m.real('voc', 6, 120), i_sc=m.real('isc', 0.1, 16),
             alpha_sc=0, beta_voc=0)
    p.update(alpha_sc=m.real('al', -0.001, 0.003) * p['i_sc'], beta_voc=m.real('be', -0.01, -0.001) * p['v_oc'])
    w = m.real('w', 2, 30)
    m.stub('pvarray', '_lambertw_pvlib', lambda x: (m.obs('arg', x), w)[1])
    r = m.pv.pvarray.batzelis(g, t, **p)
    al, be, T0 = p['alpha_sc'] / p['i_sc'], p['beta_voc'] / p['v_oc'], 298.15
    d0 = (1 - be * T0) / (50.1 - al * T0)
    o = {k: same(m, kind, r[k], n) for k in ('i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp')}
    rv = p['v_oc'] / p['v_mp']
    for k in range(n):
        q = {c: v[k] for c, v in o.items()}
        m.eq('power', q['p_mp'], q['v_mp'] * q['i_mp'])
        if not light:
            for c in q:
                m.eq('no light: ' + c, q[c], 0)
            continue
        s, d, lam = G[k] / 1000, T[k] - 25, (T[k] + 273.15) / T0
        L = m.np.log(s)
        m.eq('i_sc', q['i_sc'], s * p['i_sc'] * (1 + al * d))
        m.eq('i_mp', q['i_mp'], s * p['i_mp'] * (1 + (al + (be - 1 / T0) / (w - 1)) * d), rtol=1e-7, atol=1e-7)
        voc = p['v_oc'] * (1 + d0 * lam * L + be * d)
        bv = rv * (be / (1 + d0) + (d0 * (w - 1) - 1 / (1 + d0)) / T0)
        vmp = p['v_mp'] * (1 + d0 / (1 + d0) * rv * lam * L + (d0 * (w - 1) * rv - 1) * (1 - s) + bv * d)
        m.eq('v_oc', q['v_oc'], 0 if voc < 0 else voc, rtol=1e-7, atol=1e-7)
        m.eq('v_mp', q['v_mp'], 0 if vmp < 0 else vmp, rtol=1e-7, atol=1e-7)


def batzelis_w(m):
    """the Lambert W function is evaluated at exp(1 + 1/delta0)"""
    seen = []
    p = dict(v_mp=m.real('vmp', 5, 100), i_mp=m.real('imp', 0.1, 15), v_oc=m.real('voc', 6, 120), i_sc=m.real('isc', 0.1, 16),
             alpha_sc=0, beta_voc=0)
    p.update(alpha_sc=m.real('al', -0.001, 0.003) * p['i_sc'], beta_voc=m.real('be', -0.01, -0.001) * p['v_oc'])
    m.stub('pvarray', '_lambertw_pvlib', lambda x: (seen.append(x), 15.0)[1])
    m.pv.pvarray.batzelis(1000., 25., **p)
    d0 = (1 - p['beta_voc'] / p['v_oc'] * 298.15) / (50.1 - p['alpha_sc'] / p['i_sc'] * 298.15)
    m.eq('argument', m.item(seen[0]), m.np.exp(1 / d0 + 1), rtol=1e-9)


def jobs(tier):
    for kind in KINDS:
        for var in ('plain', 'k', 'cap'):
            yield Job('pvwatts %s, %s' % (var, kind), pvwatts, params=dict(kind=kind, var=var))
        yield Job('sapm %s' % kind, sapm, params=dict(kind=kind, x=True, opts=False))
        yield Job('sapm %s, no light' % kind, sapm_dark, params=dict(kind=kind))
        yield Job('sapm effective irradiance, %s' % kind, effective, params=dict(kind=kind))
        yield Job('adr %s' % kind, adr, params=dict(kind=kind))
        yield Job('huld %s' % kind, huld, params=dict(kind=kind, how='k'))
        for light in (True, False):
            yield Job('batzelis %s%s' % (kind, '' if light else ', no light'), batzelis, params=dict(kind=kind, light=light))
    yield Job('batzelis, Lambert W', batzelis_w)
    yield Job('sapm, options', sapm, params=dict(kind='scalar', x=False, opts=True))
    for v in HULD:
        for c in HULD[v]:
            yield Job('huld %s %s' % (v, c), huld, params=dict(kind='scalar', how=(v, c)))
    yield Job('huld PVGIS6 CSI', huld, params=dict(kind='scalar', how=('PVGIS6', 'cSi')))
    yield Job('huld arguments', huld_bad)
    yield Job('pvwatts losses', losses)
    yield Job('ohmic losses', ohmic)
    yield Job('combined losses', combine)
    yield Job('string scaling', scale)
