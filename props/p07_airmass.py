import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P07'
FUNCTIONS = ['atmosphere.get_relative_airmass', 'atmosphere.get_absolute_airmass']
BOUNDS = ('zenith in [0, 180] degrees and NaN, all eight model names, scalars, arrays and series of 2; pressure in [100, 110000] Pa, '
          'airmass in [0.5, 40]; powers with fractional exponents as uninterpreted monotone positive functions with '
          'rational bounds at the box corners')
OUTSIDE = 'negative zenith; exactly 90 degrees for the secant-based models (a pole over the reals)'
MODELS = ('simple', 'kasten1966', 'kastenyoung1989', 'gueymard1993', 'pickering2002', 'youngirvine1967', 'young1994',
          'gueymard2003')


def formula(m, model, z):
    c = m.cosd(z)
    if model == 'simple':
        return 1 / c
    if model == 'kasten1966':
        return 1 / (c + 0.15 * (93.885 - z)**(-1.253))
    if model == 'kastenyoung1989':
        return 1 / (c + 0.50572 * (6.07995 + (90 - z))**(-1.6364))
    if model == 'gueymard1993':
        return 1 / (c + 0.00176759 * z * (94.37515 - z)**(-1.21563))
    if model == 'pickering2002':
        return 1 / m.sind(90 - z + 244.0 / (165 + 47.0 * (90 - z)**1.1))
    if model == 'youngirvine1967':
        s = 1 / c
        return s * (1 - 0.0012 * (s * s - 1))
    if model == 'young1994':
        return (1.002432 * c * c + 0.148386 * c + 0.0096467) / (c * c * c + 0.149864 * c * c + 0.0102963 * c + 0.000303978)
    return 1 / (c + 0.48353 * z**0.095846 / (96.741 - z)**1.754)


POLE = ('simple', 'youngirvine1967')


def value(m, model, name=None):
    z = m.real('zen', 0, 90, hi_open=model in POLE)
    am = m.item(m.pv.atmosphere.get_relative_airmass(z, name or model))
    m.obs('am', am)
    m.notnan('defined above the horizon', am)
    m.eq('published formula', am, formula(m, model, z))
    if model == 'simple':
        m.ge('at least 1', am, 1)
    elif model == 'gueymard2003':
        m.ge('at least about 1', am, 0.97)
    elif model != 'youngirvine1967':
        m.between('between about 1 and 40', am, 0.97, 41)


def below(m, model):
    z = m.real('zen', 90, 180, lo_open=True)
    f = m.pv.atmosphere.get_relative_airmass
    m.nan('undefined below the horizon', m.item(f(z, model)))
    m.nan('NaN zenith', m.item(f(float('nan'), model)))


def default(m):
    z = m.real('zen', 0, 180)
    am = m.item(m.pv.atmosphere.get_relative_airmass(z))
    if z > 90:
        m.nan('undefined below the horizon', am)
    else:
        m.eq('Kasten and Young by default', am, formula(m, 'kastenyoung1989', z))


def arr(m, model, kind):
    z = m.reals('zen', 2, 0, 180)
    m.assume(z[0] != 90)
    m.assume(z[1] != 90)
    idx = [5, 9]
    s = m.arr(z) if kind == 'array' else pd.Series(z, index=idx)
    r = m.pv.atmosphere.get_relative_airmass(s, model)
    if kind == 'series':
        m.true('a series on the same index', isinstance(r, pd.Series) and list(r.index) == idx)
    for i, v in enumerate(r):
        if z[i] > 90:
            m.nan('undefined below the horizon', v)
        else:
            m.eq('published formula, element', v, formula(m, model, z[i]))
    m.eq('zenith not modified', [x for x in s], z)


def absolute(m):
    am, p = m.real('am', 0.5, 40), m.real('p', 100, 110000)
    f = m.pv.atmosphere.get_absolute_airmass
    r = f(am, p)
    m.obs('r', r)
    m.eq('scaled by pressure', r, am * p / 101325.)
    m.eq('standard pressure by default', f(am), am)
    m.nan('NaN stays NaN', f(float('nan'), p))
    s = pd.Series([am, am + 1])
    r = f(s, p)
    m.eq('series', [x for x in r], [am * p / 101325., (am + 1) * p / 101325.])


def unknown(m):
    f = m.pv.atmosphere.get_relative_airmass
    z = m.real('zen', 0, 180)
    for n in ('', 'kasten', 'kastenyoung', 'young', 'secant', 'gueymard'):
        m.raises('unknown model %r' % n, ValueError, f, z, n)


def jobs(tier):
    for n in MODELS:
        yield Job(n, value, params=dict(model=n))
        yield Job(n + ' below the horizon', below, params=dict(model=n))
        yield Job(n + ' array', arr, params=dict(model=n, kind='array'))
    yield Job('series', arr, params=dict(model='kastenyoung1989', kind='series'))
    yield Job('upper case name', value, params=dict(model='kasten1966', name='Kasten1966'))
    yield Job('default model', default)
    yield Job('absolute', absolute)
    yield Job('unknown model', unknown)
