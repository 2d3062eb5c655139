import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P12'
FUNCTIONS = ['temperature.sapm_module', 'temperature.sapm_cell', 'temperature.sapm_cell_from_module', 'temperature.pvsyst_cell',
             'temperature.faiman', 'temperature.faiman_rad', 'temperature.ross', 'temperature.noct_sam', 'temperature.generic_linear',
             'temperature.prilliman']
BOUNDS = ('irradiance in [0, 1500] W/m2, air temperature in [-60, 60] C, wind in [0, 40] m/s, every model parameter in a box around '
          'the physical values (see the harness); scalars, arrays and series; Prilliman smoothing of 3 to 6 samples, 1 to 10 '
          'minutes apart, window 20 minutes, module mass in [5, 20] kg/m2; exp uninterpreted (positive, increasing)')
OUTSIDE = 'the transient Fuentes model (ten nested fixed-point iterations with fractional powers per time step)'
KINDS = ('scalar', 'array', 'series')


def wrap(m, kind, *xs):
    if kind == 'scalar':
        return xs
    if kind == 'array':
        return tuple(m.arr([x]) for x in xs)
    return tuple(pd.Series([x], index=[7]) for x in xs)


def models(m):
    """name -> (function of (poa, air, wind) , published formula, does wind cool)"""
    T = m.pv.temperature
    ex = m.np.exp
    a, b, dT, ref = m.real('a', -4, -2), m.real('b', -0.2, 0), m.real('deltaT', 0, 5), m.real('ref', 500, 1500)
    uc, uv, eta, al = m.real('uc', 10, 40), m.real('uv', 0, 10), m.real('eta', 0, 0.3), m.real('alpha', 0.5, 1)
    k, noct, sv, em, ir = m.real('k', 0, 0.1), m.real('noct', 30, 60), m.real('view', 0, 1), m.real('emis', 0, 1), m.real('ir', 100, 600)
    ta, r = m.real('ta', 0.5, 1), m.real('ratio', 0.7, 1)
    s4 = 5.670374419e-08
    return {
        'sapm module': (lambda p, t, w: T.sapm_module(p, t, w, a, b), lambda p, t, w: p * ex(a + b * w) + t),
        'sapm cell': (lambda p, t, w: T.sapm_cell(p, t, w, a, b, dT, irrad_ref=ref),
                      lambda p, t, w: p * ex(a + b * w) + t + p / ref * dT),
        'sapm cell, default reference': (lambda p, t, w: T.sapm_cell(p, t, w, a, b, dT),
                                         lambda p, t, w: p * ex(a + b * w) + t + p / 1000 * dT),
        'sapm cell from module': (lambda p, t, w: T.sapm_cell_from_module(t, p, dT, ref), lambda p, t, w: t + p / ref * dT),
        'pvsyst': (lambda p, t, w: T.pvsyst_cell(p, t, w, uc, uv, eta, al), lambda p, t, w: t + p * al * (1 - eta) / (uc + uv * w)),
        'pvsyst, defaults': (lambda p, t, w: T.pvsyst_cell(p, t), lambda p, t, w: t + p * 0.9 * (1 - 0.1) / 29.0),
        'faiman': (lambda p, t, w: T.faiman(p, t, w, uc, uv), lambda p, t, w: t + p / (uc + uv * w)),
        'faiman, defaults': (lambda p, t, w: T.faiman(p, t), lambda p, t, w: t + p / (25.0 + 6.84)),
        'faiman rad': (lambda p, t, w: T.faiman_rad(p, t, w, ir, uc, uv, sv, em),
                       lambda p, t, w: t + (p - em * sv * (s4 * (t + 273.15)**4 - ir)) / (uc + uv * w)),
        'faiman rad without sky data': (lambda p, t, w: T.faiman_rad(p, t, w, None, uc, uv, sv, em),
                                        lambda p, t, w: t + p / (uc + uv * w)),
        'ross': (lambda p, t, w: T.ross(p, t, noct), lambda p, t, w: t + (noct - 20) / 80 * p / 10),
        'ross, k': (lambda p, t, w: T.ross(p, t, k=k), lambda p, t, w: t + k * p),
        'generic linear': (lambda p, t, w: T.generic_linear(p, t, w, uc, uv, eta, al),
                           lambda p, t, w: t + p * (al - eta) / (uc + uv * w)),
        'noct sam': (lambda p, t, w: T.noct_sam(p, t, w, noct, eta, None, ta),
                     lambda p, t, w: t + p / 800 * (noct - 20) * (1 - eta / ta) * 9.5 / (5.7 + 3.8 * 0.51 * w)),
        'noct sam, two stories': (lambda p, t, w: T.noct_sam(p, t, w, noct, eta, None, ta, array_height=2),
                                  lambda p, t, w: t + p / 800 * (noct - 20) * (1 - eta / ta) * 9.5 / (5.7 + 3.8 * 0.61 * w)),
    }


NAMES = ['sapm module', 'sapm cell', 'sapm cell, default reference', 'sapm cell from module', 'pvsyst', 'pvsyst, defaults', 'faiman', 'faiman, defaults',
         'faiman rad', 'faiman rad without sky data', 'ross', 'ross, k', 'generic linear', 'noct sam', 'noct sam, two stories']


def model(m, name, kind):
    f, spec = models(m)[name]
    p, t, w = m.real('poa', 0, 1500), m.real('air', -60, 60), m.real('wind', 0, 40)
    P, A, W = wrap(m, kind, p, t, w)
    r = f(P, A, W)
    if kind == 'series':
        m.true('series on the same index', isinstance(r, pd.Series) and list(r.index) == [7])
        r = r.loc[7]
    r = m.item(r)
    m.obs('T', r)
    m.eq('published formula', r, spec(p, t, w))
    if kind != 'scalar':
        return
    if name != 'faiman rad':
        m.eq('air temperature without sun', m.item(f(0.0, t, w)), t)
        m.eq('air temperature enters with slope one', m.item(f(p, t + 10, w)), r + 10)
        p2, w2 = m.real('poa2', 0, 1500), m.real('wind2', 0, 40)
        m.assume(p2 >= p)
        m.assume(w2 >= w)
        m.ge('more irradiance does not cool', m.item(f(p2, t, w)), r, 1e-6)
        m.le('more wind does not heat', m.item(f(p, t, w2)), r, 1e-6)


def noct_effective(m):
    T = m.pv.temperature
    p, e, t, w = m.real('poa', 1, 1500), m.real('eff', 1, 1500), m.real('air', -60, 60), m.real('wind', 0, 40)
    noct, eta, ta = m.real('noct', 30, 60), m.real('eta', 0, 0.3), m.real('ta', 0.5, 1)
    r = m.item(T.noct_sam(p, t, w, noct, eta, effective_irradiance=e, transmittance_absorptance=ta))
    m.eq('published formula', r, t + p / 800 * (noct - 20) * (1 - eta / (ta * e / p)) * 9.5 / (5.7 + 3.8 * 0.51 * w))


def noct_standoff(m):
    T = m.pv.temperature
    p, t, w, noct, eta = m.real('poa', 0, 1500), m.real('air', -60, 60), m.real('wind', 0, 40), m.real('noct', 30, 60), m.real('eta', 0, 0.3)
    s = m.real('standoff', -1, 6)
    r = m.item(T.noct_sam(p, t, w, noct, eta, mount_standoff=s))
    d = 0.0 if s <= 0 else 18.0 if s < 0.5 else 11.0 if s < 1.5 else 6.0 if s < 2.5 else 2.0 if s <= 3.5 else 0.0
    m.eq('mounting standoff', r, t + p / 800 * (noct + d - 20) * (1 - eta / 0.9) * 9.5 / (5.7 + 3.8 * 0.51 * w))


def rejects(m):
    T = m.pv.temperature
    p, t, w = m.real('poa', 0, 1500), m.real('air', -60, 60), m.real('wind', 0, 40)
    m.raises('ross needs one parameter', ValueError, T.ross, p, t)
    m.raises('ross needs only one parameter', ValueError, T.ross, p, t, 45.0, 0.03)
    h = m.choice('height', [0, 3])
    m.raises('array height is 1 or 2', ValueError, T.noct_sam, p, t, w, 45.0, 0.2, array_height=h)


def prilliman(m, n, step, bad=False):
    """weighted mean of the previous 20 minutes, weights decaying with age at the stated rate"""
    T = m.pv.temperature
    tc, ws = m.reals('tc', n, -60, 100), m.reals('ws', n, 0, 20)
    mass = m.real('mass', 5, 20)
    ix = pd.date_range('2020-06-01 10:00', periods=n, freq='%dmin' % step)
    r = T.prilliman(pd.Series(tc, index=ix), pd.Series(ws, index=ix), mass)
    m.true('same index', list(r.index) == list(ix))
    r = list(r.to_numpy())
    if step >= 20:
        m.eq('unchanged when samples are 20 minutes or more apart', r, tc)
        return
    m.eq('first value unchanged', r[0], tc[0])
    k = min(int(20 / step), n)
    for i in range(1, n):
        P = 0.0046 + 0.00046 * ws[i] - 0.00023 * mass - 1.6e-5 * ws[i] * mass
        num, den = 0.0, 0.0
        for j in range(max(0, i - k), i):
            wt = m.np.exp(-P * (i - j) * step * 60)
            num, den = num + wt * tc[j], den + wt
        m.obs('r%d' % i, r[i])
        m.eq('weighted mean of the preceding samples', r[i], num / den)
        if i <= 3:
            m.le('not above the hottest sample', r[i] * den, den * _max(tc[:i]), 1e-6)


def _max(xs):
    h = xs[0]
    for x in xs[1:]:
        if x > h:
            h = x
    return h


def jobs(tier):
    for n in NAMES:
        for k in KINDS:
            yield Job('%s, %s' % (n, k), model, params=dict(name=n, kind=k))
    yield Job('noct sam, effective irradiance', noct_effective)
    yield Job('noct sam, standoff', noct_standoff)
    yield Job('rejected arguments', rejects)
    for n, s in ((3, 5), (3, 10), (4, 5), (6, 10), (3, 1), (3, 20), (3, 30)):
        yield Job('prilliman %d samples of %d min' % (n, s), prilliman, params=dict(n=n, step=s))
