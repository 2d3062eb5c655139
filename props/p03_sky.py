from pvsym.cli import Job
from props.p01_aoi import orient, dot
PROPERTY = 'P03'
FUNCTIONS = ['irradiance.isotropic', 'irradiance.klucher', 'irradiance.haydavies', 'irradiance.reindl', 'irradiance.king',
             'irradiance.perez', 'irradiance._get_perez_coefficients', 'irradiance.perez_driesse (non-spline part)']
BOUNDS = ('tilt in [0, 180], azimuths in [-360, 720], zenith in [0, 180] degrees, DHI, GHI in [0, 1500], DNI in [0, DNI extra], '
          'DNI extra in [1300, 1430], airmass in [1, 40] or NaN; scalars; every Perez coefficient set')
OUTSIDE = 'negative irradiance; DNI above the extraterrestrial irradiance; DHI above sqrt(2) GHI for Klucher non-negativity'
PEREZ = ['1990', 'allsitescomposite1990', 'allsitescomposite1988', 'sandiacomposite1988', 'usacomposite1988', 'france1988',
         'phoenix1988', 'elmonte1988', 'osage1988', 'albuquerque1988', 'capecanaveral1988', 'albany1988']


def vals(m, zmin=0, zmax=180, dhimin=0):
    v = dict(zip(('t', 'sa', 'z', 'a'), (m.real('tilt', 0, 180), m.real('saz', -360, 720), m.real('zen', zmin, zmax),
                                         m.real('az', -360, 720))))
    v.update(dhi=m.real('dhi', dhimin, 1500), extra=m.real('extra', 1300, 1430), ai=m.real('ai', 0, 1))
    v['dni'] = v['ai'] * v['extra']
    return v


def parts(m, r, names):
    """total and the sum of the reported components"""
    tot = m.item(r['poa_sky_diffuse'])
    s = 0
    for n in names:
        s = s + m.item(r[n])
    m.true('exactly the documented components', sorted(k for k in r) == sorted(['poa_sky_diffuse'] + list(names)))
    return tot, s


def isotropic(m):
    t, dhi = m.real('tilt', 0, 180), m.real('dhi', 0, 1500)
    f = m.pv.irradiance.isotropic
    r = m.item(f(t, dhi))
    m.obs('r', r)
    m.eq('isotropic = DHI (1 + cos tilt)/2', r, dhi * (1 + m.cosd(t)) / 2)
    m.ge('not negative', r, 0, 0)
    m.eq('horizontal gives DHI', f(0, dhi), dhi)
    m.eq('no diffuse, no sky diffuse', f(t, 0.0), 0)
    tot, s = parts(m, f(t, dhi, return_components=True), ['poa_isotropic'])
    m.eq('components sum to the total', s, tot)
    m.eq('total with components', tot, r)


def klucher(m, case):
    v = vals(m)
    ghi = m.real('ghi', 0, 1500)
    f = m.pv.irradiance.klucher
    if case == 'zero':
        r = m.item(f(v['t'], v['sa'], 0.0, ghi, v['z'], v['a']))
        m.eq('no diffuse, no sky diffuse', r, 0)
        return
    if case == 'sign':
        # DHI up to sqrt(2) GHI
        ghi, k = m.real('ghi2', 0.001, 1500), m.real('k', 0, 1.4142)
        m.ge('not negative', m.item(f(v['t'], v['sa'], k * ghi, ghi, v['z'], v['a'])), 0)
        m.ge('not negative without any GHI', m.item(f(v['t'], v['sa'], v['dhi'], 0.0, v['z'], v['a'])) if v['dhi'] == 0 else 0, 0)
        return
    r = m.item(f(v['t'], v['sa'], v['dhi'], ghi, v['z'], v['a']))
    m.obs('r', r)
    if v['dhi'] > 0 and ghi > 0:
        F = 1 - (v['dhi'] / ghi)**2
    elif v['dhi'] == 0 and ghi == 0:
        F = 0.0
    elif ghi > 0:
        F = 1.0
    else:
        return
    m.notnan('a number', r)
    d = dot(m, v['t'], v['sa'], v['z'], v['a'])
    c = d if d >= 0 else 0
    m.eq('published formula', r, v['dhi'] * 0.5 * (1 + m.cosd(v['t'])) * (1 + F * m.sind(v['t'] / 2)**3) *
         (1 + F * c * c * m.sind(v['z'])**3))


def haydavies(m, case):
    v = vals(m)
    f = m.pv.irradiance.haydavies
    if case == 'horizontal':
        m.assume(v['z'] <= 88.9)
        r = m.item(f(0, v['sa'], v['dhi'], v['dni'], v['extra'], v['z'], v['a']))
        m.obs('r', r)
        m.link(v['z'], 88.9)
        m.eq('horizontal gives DHI', r, v['dhi'])
        return
    if case == 'given ratio':
        rb = m.real('ratio', 0, 60)
        r = m.item(f(v['t'], v['sa'], v['dhi'], v['dni'], v['extra'], projection_ratio=rb))
        m.eq('a given projection ratio is used', r, v['dhi'] * ((1 - v['ai']) * 0.5 * (1 + m.cosd(v['t'])) + v['ai'] * rb))
        return
    d = dot(m, v['t'], v['sa'], v['z'], v['a'])
    cz = m.cosd(v['z'])
    rb = (d if d >= 0 else 0) / (cz if cz >= 0.01745 else 0.01745)
    r = f(v['t'], v['sa'], v['dhi'], v['dni'], v['extra'], v['z'], v['a'], return_components=True)
    tot, s = parts(m, r, ['poa_isotropic', 'poa_circumsolar'])
    m.obs('r', tot)
    m.eq('components sum to the total', s, tot)
    m.eq('isotropic part', m.item(r['poa_isotropic']), v['dhi'] * (1 - v['ai']) * 0.5 * (1 + m.cosd(v['t'])))
    m.eq('circumsolar part', m.item(r['poa_circumsolar']), v['dhi'] * v['ai'] * rb)
    m.ge('not negative', tot, 0)
    m.eq('total with and without components', f(v['t'], v['sa'], v['dhi'], v['dni'], v['extra'], v['z'], v['a']), tot)
    m.eq('no diffuse, no sky diffuse', f(v['t'], v['sa'], 0.0, v['dni'], v['extra'], v['z'], v['a']), 0)


def reindl(m, case):
    v = vals(m)
    ghi = m.real('ghi', 0, 1500)
    f = m.pv.irradiance.reindl
    if case == 'horizontal':
        m.assume(v['z'] <= 88.9)
        r = m.item(f(0, v['sa'], v['dhi'], v['dni'], ghi, v['extra'], v['z'], v['a']))
        m.link(v['z'], 88.9)
        m.eq('horizontal gives DHI', r, v['dhi'])
        return
    d = dot(m, v['t'], v['sa'], v['z'], v['a'])
    cz = m.cosd(v['z'])
    rb = (d if d >= 0 else 0) / (cz if cz >= 0.01745 else 0.01745)
    hb = v['dni'] * cz
    hb = hb if hb >= 0 else 0
    ratio = hb / ghi if ghi > 0 else 0.0
    svf = (1 + m.cosd(v['t'])) / 2
    t3 = (1 - v['ai']) * svf * m.np.sqrt(ratio) * m.sind(v['t'] / 2)**3
    r = f(v['t'], v['sa'], v['dhi'], v['dni'], ghi, v['extra'], v['z'], v['a'], return_components=True)
    tot, s = parts(m, r, ['poa_isotropic', 'poa_circumsolar', 'poa_horizon'])
    m.obs('r', tot)
    m.notnan('a number', tot)
    m.eq('components sum to the total', s, tot)
    m.eq('isotropic part', m.item(r['poa_isotropic']), v['dhi'] * (1 - v['ai']) * svf)
    m.eq('circumsolar part', m.item(r['poa_circumsolar']), v['dhi'] * v['ai'] * rb)
    m.eq('horizon part', m.item(r['poa_horizon']), v['dhi'] * t3)
    for n in ('poa_isotropic', 'poa_circumsolar', 'poa_horizon'):
        m.ge('not negative ' + n, m.item(r[n]), 0)
    m.eq('no diffuse, no sky diffuse', f(v['t'], v['sa'], 0.0, v['dni'], ghi, v['extra'], v['z'], v['a']), 0)


def king(m):
    t, dhi, ghi, z = m.real('tilt', 0, 180), m.real('dhi', 0, 1500), m.real('ghi', 0, 1500), m.real('zen', 0, 180)
    r = m.item(m.pv.irradiance.king(t, dhi, ghi, z))
    f = dhi * (1 + m.cosd(t)) / 2 + ghi * (0.012 * z - 0.04) * (1 - m.cosd(t)) / 2
    m.obs('r', r)
    m.ge('not negative', r, 0, 0)
    m.eq('published formula', r, f if f >= 0 else 0)
    m.eq('horizontal gives DHI', m.pv.irradiance.king(0, dhi, ghi, z), dhi)


BINS = (1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2)


def perez(m, case, model='allsitescomposite1990', bin=None):
    z0 = 0 if case != 'night' else 90.001
    v = vals(m, zmin=z0, dhimin=0.01 if case in ('formula', 'horizontal', 'sign') else 0)
    am = m.real('am', 1, 40)
    f = m.pv.irradiance.perez
    nan = float('nan')
    names = ['poa_isotropic', 'poa_circumsolar', 'poa_horizon']
    if case == 'night':
        r = f(v['t'], v['sa'], v['dhi'], v['dni'], v['extra'], v['z'], v['a'], nan, model=model, return_components=True)
        for k in r:
            m.eq('no sky diffuse without airmass: ' + k, m.item(r[k]), 0)
        return
    if case == 'zero':
        m.assume(v['dni'] > 0)
        for q in (am, nan):
            r = f(v['t'], v['sa'], 0.0, v['dni'], v['extra'], v['z'], v['a'], q, model=model)
            m.eq('no diffuse, no sky diffuse', r, 0)
        return
    if case == 'horizontal':
        m.assume(v['z'] <= 84.9)
        r = m.item(f(0, v['sa'], v['dhi'], v['dni'], v['extra'], v['z'], v['a'], am, model=model))
        m.link(v['z'], 84.9)
        m.eq('horizontal gives DHI', r, v['dhi'])
        return
    zr = m.np.radians(v['z'])
    if bin is not None:
        k3 = 1.041 * zr * zr * zr
        eps = ((v['dhi'] + v['dni']) / v['dhi'] + k3) / (1 + k3)
        if bin:
            m.assume(eps >= BINS[bin - 1])
        if bin < 7:
            m.assume(eps < BINS[bin])
        i = bin
    r = f(v['t'], v['sa'], v['dhi'], v['dni'], v['extra'], v['z'], v['a'], am, model=model, return_components=True)
    tot, s = parts(m, r, names)
    m.obs('r', tot)
    m.notnan('a number', tot)
    m.ge('not negative', tot, 0, 0)
    if tot == 0:
        m.eq('components vanish with the total', s, 0)
    else:
        m.eq('components sum to the total', s, tot)
    if case == 'sign':
        return
    # the published model, with the module's coefficient table
    F1c, F2c = TABLE(m, model)
    delta = v['dhi'] * am / v['extra']
    F1 = F1c[i][0] + F1c[i][1] * delta + F1c[i][2] * zr
    F1 = F1 if F1 >= 0 else 0
    F2 = F2c[i][0] + F2c[i][1] * delta + F2c[i][2] * zr
    d = dot(m, v['t'], v['sa'], v['z'], v['a'])
    A = d if d >= 0 else 0
    B = m.cosd(v['z'])
    b85 = m.cosd(85)
    B = B if B >= b85 else b85
    e = v['dhi'] * (0.5 * (1 - F1) * (1 + m.cosd(v['t'])) + F1 * A / B + F2 * m.sind(v['t']))
    m.eq('published model', tot, e if e >= 0 else 0)


def TABLE(m, model):
    a, b = m.pv.irradiance._get_perez_coefficients(model)
    return [[float(x) for x in r] for r in a], [[float(x) for x in r] for r in b]


def driesse(m, case):
    """the spline coefficients enter as arbitrary functions of (i, j, zeta)"""
    v = vals(m, dhimin=0)
    am = m.real('am', 1, 38)
    F = {}

    def fij(i, j, zeta):
        F.setdefault('zeta', m.item(zeta))
        q = F.setdefault((i, j), m.real('f%d%d' % (i, j), -3, 3))
        return q
    m.stub('irradiance', '_f', fij)
    f = m.pv.irradiance.perez_driesse
    names = ['poa_isotropic', 'poa_circumsolar', 'poa_horizon']
    if case == 'zero':
        m.eq('no diffuse, no sky diffuse', f(v['t'], v['sa'], 0.0, v['dni'], v['extra'], v['z'], v['a'], am), 0)
        m.eq('no diffuse: sky clearness parameter is 0', F['zeta'], 0)
        return
    if case == 'horizontal':
        m.assume(v['z'] <= 84.9)
        r = m.item(f(0, v['sa'], v['dhi'], v['dni'], v['extra'], v['z'], v['a'], am))
        m.link(v['z'], 84.9)
        m.eq('horizontal gives DHI', r, v['dhi'])
        return
    r = f(v['t'], v['sa'], v['dhi'], v['dni'], v['extra'], v['z'], v['a'], am, return_components=True)
    tot, s = parts(m, r, names)
    m.notnan('a number', tot)
    m.ge('not negative', tot, 0, 0)
    if s >= 0:
        m.eq('components sum to the total', s, tot)
    m.between('sky clearness parameter', F['zeta'], 0, 1)


def jobs(tier):
    yield Job('isotropic', isotropic)
    for c in ('formula', 'sign', 'zero'):
        yield Job('klucher ' + c, klucher, params=dict(case=c))
    for c in ('formula', 'horizontal', 'given ratio'):
        yield Job('haydavies ' + c, haydavies, params=dict(case=c))
    for c in ('formula', 'horizontal'):
        yield Job('reindl ' + c, reindl, params=dict(case=c))
    yield Job('king', king)
    for b in range(8):
        yield Job('perez formula, clearness bin %d' % (b + 1), perez, params=dict(case='formula', bin=b))
    for c in ('sign', 'horizontal', 'night', 'zero'):
        yield Job('perez ' + c, perez, params=dict(case=c))
    for c in ('parts', 'horizontal', 'zero'):
        yield Job('perez-driesse ' + c, driesse, params=dict(case=c))
