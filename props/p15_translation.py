import numpy as np
import pandas as pd
from scipy import constants
from pvsym.cli import Job
PROPERTY = 'P15'
FUNCTIONS = ['pvsystem.calcparams_desoto', 'pvsystem.calcparams_cec', 'pvsystem.calcparams_pvsyst', 'pvsystem._pvsyst_Rsh',
             'pvsystem._pvsyst_IL', 'pvsystem._pvsyst_Io', 'pvsystem._pvsyst_gamma', 'pvsystem._pvsyst_nNsVth']
BOUNDS = ('effective irradiance in [0, 2000] W/m2, cell temperature in [-60, 120] C, reference irradiance in [800, 1200] W/m2, reference '
          'temperature in [0, 50] C, I_L_ref in [0.01, 20] A, I_o_ref in [1e-15, 1e-3] A, alpha_sc in [-0.01, 0.1] A/K, a_ref in [0.1, 10] V, '
          'R_sh_ref in [1, 1e5] and R_sh_0 in [1, 1e6] Ohm, R_s in [0, 5] Ohm, EgRef in [0.5, 3] eV, dEgdT in [-1e-3, 1e-3], Adjust in '
          '[-100, 100] %, gamma_ref in [0.5, 3], mu_gamma in [-0.002, 0.002], R_sh_exp in [1, 10], 1 to 200 cells; scalars, arrays and series')
OUTSIDE = 'float rounding of the exponentials'
NAMES = ('photocurrent', 'saturation current', 'series resistance', 'shunt resistance', 'nNsVth')
TZ = pd.DatetimeIndex(['2020-06-01 10:00', '2020-06-01 11:00'], tz='Etc/GMT+7')


def inputs(m, kind, model, light=True):
    n = 1 if kind == 'scalar' else 2
    G = [m.real('g%d' % k, 0, 2000, lo_open=light) for k in range(n)]
    T = [m.real('t%d' % k, -60, 120) for k in range(n)]
    p = dict(alpha_sc=m.real('alpha', -0.01, 0.1), I_L_ref=m.real('il', 0.01, 20), I_o_ref=m.real('io', 1e-15, 1e-3),
             R_sh_ref=m.real('rshref', 1, 1e5), R_s=m.real('rs', 0, 5))
    if model == 'pvsyst':
        p.update(gamma_ref=m.real('gamma', 0.5, 3), mu_gamma=m.real('mu', -0.002, 0.002), R_sh_0=m.real('rsh0', 1, 1e6),
                 cells_in_series=m.real('cells', 1, 200))
    else:
        p.update(a_ref=m.real('aref', 0.1, 10))
        if model == 'cec':
            p.update(Adjust=m.real('adjust', -100, 100))
    one = {'scalar': lambda a: a[0], 'array': m.arr, 'series': lambda a: pd.Series(a, index=TZ)}
    if kind == 'mixed':
        return G, [T[0], T[0]], one['series'](G), T[0], p
    if kind == 'mixed2':
        return [G[0], G[0]], T, G[0], one['series'](T), p
    return G, T, one[kind](G), one[kind](T), p


def expect(m, model, G, T, p, o):
    """published translation of the module parameters to irradiance G and temperature T"""
    Tr, Tk = o.get('temp_ref', 25) + 273.15, T + 273.15
    g = G / o.get('irrad_ref', 1000)
    Eg0 = o.get('EgRef', 1.121)
    al = p['alpha_sc'] * (1 - p['Adjust'] / 100) if model == 'cec' else p['alpha_sc']
    IL = g * (p['I_L_ref'] + al * (Tk - Tr))
    if model == 'pvsyst':
        k, q = constants.k, constants.e
        gam = p['gamma_ref'] + p['mu_gamma'] * (Tk - Tr)
        ex = q * Eg0 / (k * gam) * (1 / Tr - 1 / Tk)
        a = gam * k / q * p['cells_in_series'] * Tk
        e = o.get('R_sh_exp', 5.5)
        base = (p['R_sh_ref'] - p['R_sh_0'] * m.np.exp(-e)) / (1 - m.np.exp(-e))
        base = base if base > 0 else 0.0
        Rsh = base + (p['R_sh_0'] - base) * m.np.exp(-e * g)
    else:
        k = constants.value('Boltzmann constant in eV/K')
        Eg = Eg0 * (1 + o.get('dEgdT', -0.0002677) * (Tk - Tr))
        ex = Eg0 / (k * Tr) - Eg / (k * Tk)
        a = p['a_ref'] * Tk / Tr
        Rsh = p['R_sh_ref'] / g
    return IL, p['I_o_ref'] * (Tk / Tr)**3 * m.np.exp(ex), p['R_s'], Rsh, a


def options(m, model, opts):
    if not opts:
        return {}
    o = dict(EgRef=m.real('eg', 0.5, 3), irrad_ref=m.real('gref', 800, 1200), temp_ref=m.real('tref', 0, 50))
    if model == 'pvsyst':
        o.update(R_sh_exp=m.real('exp', 1, 10))
    else:
        o.update(dEgdT=m.real('deg', -1e-3, 1e-3))
    return o


def formula(m, model, kind, opts):
    G, T, g, t, p = inputs(m, kind, model)
    o = options(m, model, opts)
    r = getattr(m.pv.pvsystem, 'calcparams_' + model)(g, t, **p, **o)
    m.true('five parameters', len(r) == 5)
    for k in range(len(G)):
        for x, e, name in zip(r, expect(m, model, G[k], T[k], p, o), NAMES):
            if kind == 'scalar':
                x = m.item(x)
            elif isinstance(x, pd.Series):
                m.true('index', x.index.equals(TZ))
                x = x.iloc[k]
            else:
                m.true('array', np.shape(x) == (2,) and kind == 'array')
                x = x[k]
            m.obs(name, x)
            m.eq(name, x, e, rtol=1e-9)
            if name == 'saturation current':
                m.true('positive saturation current', x > 0)


def reference(m, model):
    """reference irradiance and temperature give back the reference parameters"""
    p = inputs(m, 'scalar', model)[4]
    o = options(m, model, True)
    r = getattr(m.pv.pvsystem, 'calcparams_' + model)(o['irrad_ref'], o['temp_ref'], **p, **o)
    m.eq('photocurrent', r[0], p['I_L_ref'])
    m.eq('saturation current', r[1], p['I_o_ref'])
    m.eq('series resistance', r[2], p['R_s'])
    if model == 'pvsyst':
        e = m.np.exp(-o['R_sh_exp'])
        m.assume(p['R_sh_ref'] >= p['R_sh_0'] * e)
    m.eq('shunt resistance', r[3], p['R_sh_ref'], rtol=1e-9)
    if model != 'pvsyst':
        m.eq('nNsVth', r[4], p['a_ref'])


def dark(m, model, kind):
    """no photocurrent without light; the shunt resistance is infinite (PVsyst: its dark value)"""
    G, T, g, t, p = inputs(m, kind, model, light=False)
    f = getattr(m.pv.pvsystem, 'calcparams_' + model)
    if kind == 'scalar':
        r = [[m.item(x)] for x in f(0.0, t, **p)]
        zero = f(0, t, **p)
        m.eq('integer zero', m.item(zero[0]), 0)
        m.eq('integer zero, saturation current', m.item(zero[1]), r[1][0])
        ks = [0]
    else:
        G = [np.float64(0.0), G[1]]
        g = m.arr(G) if kind == 'array' else pd.Series(G, index=TZ)
        m.assume(G[1] > 0)
        r = [list(np.asarray(x)) for x in f(g, t, **p)]
        e = expect(m, model, G[1], T[1], p, {})
        for x, y, name in zip(r, e, NAMES):
            m.eq('the other element: ' + name, x[1], y, rtol=1e-9)
    m.eq('photocurrent', r[0][0], 0)
    if model == 'pvsyst':
        m.eq('shunt resistance', r[3][0], p['R_sh_0'], rtol=1e-9)
    else:
        m.true('shunt resistance', not np.isfinite(r[3][0]) and r[3][0] > 0)
    m.eq('saturation current', r[1][0], expect(m, model, 1.0, T[0], p, {})[1], rtol=1e-9)


def jobs(tier):
    for model in ('desoto', 'cec', 'pvsyst'):
        for kind in ('scalar', 'array', 'series', 'mixed', 'mixed2'):
            for opts in (False, True):
                yield Job('%s %s%s' % (model, kind, ', options' if opts else ''), formula, params=dict(model=model, kind=kind, opts=opts))
        yield Job('%s at reference' % model, reference, params=dict(model=model))
        for kind in ('scalar', 'array', 'series'):
            yield Job('%s in the dark, %s' % (model, kind), dark, params=dict(model=model, kind=kind))
