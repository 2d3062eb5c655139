import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P31'
FUNCTIONS = ['atmosphere.' + f for f in ('pres2alt', 'alt2pres', 'gueymard94_pw', 'rh_from_tdew', 'tdew_from_rh', 'bird_hulstrom80_aod_bb', 'kasten96_lt',
                                         'angstrom_aod_at_lambda', 'angstrom_alpha', 'windspeed_powerlaw')] + ['albedo.inland_water_dvoracek']
BOUNDS = ('pressures 10 kPa to 110 kPa, altitudes to 18 km, temperatures -60 to 60 C, humidity 0.1 to 100 %, wavelengths 300 to 2500 nm, any optical depth up '
          'to 5, airmass 0.5 to 40, wind -100 to 100 m/s, heights within 200 m, all surfaces; arrays and series of 2 values')
OUTSIDE = 'negative heights as Python floats (complex powers); the values of the empirical coefficients against measurements'
HELLMANN = {'unstable_air_above_open_water_surface': 0.06, 'neutral_air_above_open_water_surface': 0.10, 'stable_air_above_open_water_surface': 0.27,
            'unstable_air_above_flat_open_coast': 0.11, 'neutral_air_above_flat_open_coast': 0.16, 'stable_air_above_flat_open_coast': 0.40,
            'unstable_air_above_human_inhabited_areas': 0.27, 'neutral_air_above_human_inhabited_areas': 0.34, 'stable_air_above_human_inhabited_areas': 0.60}
WATER = {'clear_water_no_waves': (0.13, 0.29), 'clear_water_ripples_up_to_2.5cm': (0.16, 0.70),
         'clear_water_ripples_larger_than_2.5cm_occasional_whitecaps': (0.23, 1.25), 'clear_water_frequent_whitecaps': (0.3, 2),
         'green_water_ripples_up_to_2.5cm': (0.22, 0.70), 'muddy_water_no_waves': (0.19, 0.29)}
KINDS = ['float', 'array', 'series']


def values(m, kind, name, lo, hi):
    """the same quantity as scalar, array or series"""
    if kind == 'float':
        x = [m.real(name, lo, hi)]
        return x, x[0]
    x = m.reals(name, 2, lo, hi)
    return x, m.arr(x) if kind == 'array' else pd.Series(x, index=['a', 'b'])


def each(m, kind, label, r, want):
    if kind == 'series':
        m.true(label + ' keeps the index', isinstance(r, pd.Series) and list(r.index) == ['a', 'b'])
        r = list(r)
    elif kind == 'float':
        r = [m.item(r)]
    m.true(label + ' length', len(r) == len(want))
    for a, b in zip(r, want):
        m.eq(label, a, b)


def pressure(m, kind):
    A = m.pv.atmosphere
    p, P = values(m, kind, 'p', 1e4, 1.1e5)
    h, H = values(m, kind, 'h', -500, 18000)
    each(m, kind, 'altitude', A.pres2alt(P), [44331.5 - 4946.62 * x**0.190263 for x in p])
    each(m, kind, 'pressure', A.alt2pres(H), [100 * ((44331.514 - x) / 11880.516)**(1 / 0.1902632) for x in h])
    each(m, kind, 'optical depth', A.bird_hulstrom80_aod_bb(P / 1e5, H / 1e4), [0.27583 * (a / 1e5) + 0.35 * (b / 1e4) for a, b in zip(p, h)])


def falls(m):
    A = m.pv.atmosphere
    h, k = m.real('h', -500, 18000), m.real('k', -500, 18000)
    m.assume(h < k)
    m.true('pressure falls with altitude', A.alt2pres(h) > A.alt2pres(k))
    m.true('pressure positive', A.alt2pres(h) > 0)
    p, q = m.real('p', 1e4, 1.1e5), m.real('q', 1e4, 1.1e5)
    m.assume(p < q)
    m.true('altitude falls with pressure', A.pres2alt(p) > A.pres2alt(q))


def dew(m, order):
    A = m.pv.atmosphere
    T = m.real('T', -60, 60)
    c = (m.real('a', 5, 7), m.real('b', 17, 18), m.real('c', 240, 245)) if order == 'coefficients' else (6.112, 17.62, 243.12)
    kw = dict(coeff=c) if order == 'coefficients' else {}
    E = m.np.exp
    if order == 'rh':
        rh = m.real('rh', 0.1, 100)
        td = A.tdew_from_rh(T, rh, **kw)
        m.eq('humidity back', A.rh_from_tdew(T, td, **kw), rh)
        m.le('dew point not above air', td, T)
        m.obs('td', td)
    elif order == 'dew':
        d = m.real('d', -60, 60)
        m.eq('dew point back', A.tdew_from_rh(T, A.rh_from_tdew(T, d, **kw), **kw), d)
    else:
        d = m.real('d', -60, 60)
        rh = m.real('rh', 0.1, 100)
        m.eq('humidity', A.rh_from_tdew(T, d, **kw), 100 * E(c[1] * d / (c[2] + d)) / E(c[1] * T / (c[2] + T)))
        g = m.np.log(rh / 100) + c[1] * T / (c[2] + T)
        m.eq('dew point', A.tdew_from_rh(T, rh, **kw), c[2] * g / (c[1] - g))


def water(m, kind):
    A = m.pv.atmosphere
    t, T = values(m, kind, 'T', -60, 60)
    h, H = values(m, kind, 'rh', 0, 100)
    r = A.gueymard94_pw(T, H)
    E = m.np.exp

    def pw(t, h):
        k = t + 273.15
        th = k / 273.15
        hv = 0.4976 + 1.5265 * th + E(13.6897 * th - 14.9188 * th**3)
        rho = 216.7 * h / (100 * k) * E(22.330 - 49.140 * (100 / k) - 10.922 * (100 / k)**2 - 0.39015 * k / 100)
        return m.np.maximum(0.1 * hv * rho, 0.1)
    each(m, kind, 'precipitable water', r, [pw(a, b) for a, b in zip(t, h)])
    for x in (list(r) if kind != 'float' else [m.item(r)]):
        m.ge('at least 0.1 cm', x, 0.1)


def turbidity(m, kind):
    A = m.pv.atmosphere
    am, AM = values(m, kind, 'am', 0.5, 40)
    w, W = values(m, kind, 'w', 0.1, 10)
    a, AOD = values(m, kind, 'aod', 0, 2)
    r = A.kasten96_lt(AM, W, AOD)
    each(m, kind, 'Linke turbidity', r,
         [(9.4 + 0.9 * x) * (-0.101 + 0.235 * x**-0.16 + 0.112 * x**-0.55 * y**0.34 + z) for x, y, z in zip(am, w, a)])


def angstrom(m, what):
    A = m.pv.atmosphere
    a0, l0, l1 = m.real('aod', 0.01, 5), m.real('l0', 300, 2500), m.real('l1', 300, 2500)
    if what == 'formula':
        al = m.real('alpha', -1, 4)
        m.eq('optical depth', A.angstrom_aod_at_lambda(a0, l0, al, l1), a0 * (l1 / l0)**-al)
        m.eq('default exponent', A.angstrom_aod_at_lambda(a0, l0), a0 * (700.0 / l0)**-1.14)
        m.eq('same wavelength', A.angstrom_aod_at_lambda(a0, l0, al, l0), a0)
        return
    m.assume(l1 - l0 > 1)
    a1 = m.real('aod1', 0.01, 5)
    if what == 'alpha':
        m.eq('exponent', A.angstrom_alpha(a0, l0, a1, l1), -m.np.log(a0 / a1) / m.np.log(l0 / l1))
    elif what == 'back':
        m.eq('optical depth back', A.angstrom_aod_at_lambda(a0, l0, A.angstrom_alpha(a0, l0, a1, l1), l1), a1)
    else:
        al = m.real('alpha', -1, 4)
        m.eq('exponent back', A.angstrom_alpha(a0, l0, A.angstrom_aod_at_lambda(a0, l0, al, l1), l1), al)


def wind(m, kind, surface):
    A = m.pv.atmosphere
    v, V = values(m, kind, 'v', -100, 100)
    h, ref = m.real('h', 0, 200), m.real('ref', 0.1, 200)
    if surface:
        kw, e = dict(surface_type=surface), HELLMANN[surface]
    else:
        e = m.real('e', 0, 1)
        kw = dict(exponent=e)
        m.assume(h > 0)
    r = A.windspeed_powerlaw(V, ref, h, **kw)
    if kind == 'series':
        m.true('keeps the index', isinstance(r, pd.Series) and list(r.index) == ['a', 'b'])
        r = list(r)
    elif kind == 'float':
        r = [m.item(r)]
    for x, y in zip(r, v):
        w = y * (h / ref)**e
        if w < 0:
            m.nan('negative speed', x)
        else:
            m.eq('power law', x, w)


def wind_height(m):
    A = m.pv.atmosphere
    v = m.real('v', 0.01, 100)
    r = A.windspeed_powerlaw(v, 10.0, 10.0, exponent=0.2)
    m.eq('same height', m.item(r), v)
    m.nan('negative reference height', m.item(A.windspeed_powerlaw(m.arr([v]), np.float64(-10), 5.0, exponent=0.2)[0]))
    m.nan('negative height', m.item(A.windspeed_powerlaw(m.arr([v]), 10.0, np.float64(-5), surface_type='stable_air_above_flat_open_coast')[0]))


def wind_raises(m):
    A = m.pv.atmosphere
    v = m.real('v', 0, 100)
    m.raises('neither', ValueError, A.windspeed_powerlaw, v, 10, 2)
    m.raises('both', ValueError, A.windspeed_powerlaw, v, 10, 2, exponent=0.2, surface_type='unstable_air_above_flat_open_coast')
    m.raises('unknown', KeyError, A.windspeed_powerlaw, v, 10, 2, surface_type='moon')
    m.true('table', dict(A.HELLMANN_SURFACE_EXPONENTS) == HELLMANN)


def albedo(m, kind, surface):
    f = m.pv.albedo.inland_water_dvoracek
    e, E = values(m, kind, 'e', -90, 90)
    if surface:
        kw, (c, r) = dict(surface_condition=surface), WATER[surface]
    else:
        c, r = m.real('c', 0.01, 1), m.real('r', 0, 3)
        kw = dict(color_coeff=c, wave_roughness_coeff=r)
    out = f(E, **kw)
    want = [c**(r * m.sind(m.np.where(x < 0, 0.0, x)) + 1) for x in e]
    each(m, kind, 'albedo', out, want)
    for x, y in zip(list(out) if kind != 'float' else [m.item(out)], e):
        m.between('albedo range', x, 0, 1)
        m.le('at most the colour', x, c)


def albedo_raises(m):
    f = m.pv.albedo.inland_water_dvoracek
    e, c = m.real('e', -90, 90), m.real('c', 0, 1)
    s = 'muddy_water_no_waves'
    m.raises('nothing', ValueError, f, e)
    m.raises('colour only', ValueError, f, e, color_coeff=c)
    m.raises('roughness only', ValueError, f, e, wave_roughness_coeff=c)
    m.raises('both', ValueError, f, e, s, c, c)
    m.raises('both colour', ValueError, f, e, s, c)
    m.raises('both roughness', ValueError, f, e, s, None, c)
    m.raises('unknown', KeyError, f, e, 'sea')


def jobs(tier):
    for k in KINDS:
        yield Job('pressure ' + k, pressure, params=dict(kind=k))
        yield Job('water ' + k, water, params=dict(kind=k))
        yield Job('turbidity ' + k, turbidity, params=dict(kind=k))
        for s in [None] + (sorted(HELLMANN) if k == 'array' else []):
            yield Job('wind %s %s' % (k, s), wind, params=dict(kind=k, surface=s))
        for s in [None] + (sorted(WATER) if k == 'array' else []):
            yield Job('albedo %s %s' % (k, s), albedo, params=dict(kind=k, surface=s))
    yield Job('falls', falls)
    for o in ('rh', 'dew', 'coefficients'):
        yield Job('dew ' + o, dew, params=dict(order=o))
    for w in ('formula', 'alpha', 'back', 'exponent'):
        yield Job('angstrom ' + w, angstrom, params=dict(what=w))
    yield Job('wind height', wind_height)
    yield Job('wind raises', wind_raises)
    yield Job('albedo raises', albedo_raises)
