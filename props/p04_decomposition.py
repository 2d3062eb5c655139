from pvsym.cli import Job
PROPERTY = 'P04'
FUNCTIONS = ['irradiance.erbs', 'irradiance.erbs_driesse', 'irradiance.orgill_hollands', 'irradiance.boland',
             'irradiance.louche (closure)', 'irradiance.clearness_index', 'irradiance.campbell_norman', 'irradiance._liujordan',
             'irradiance.diffuse_par_spitters']
BOUNDS = ('GHI in [-50, 2000], zenith in [0, 180] degrees, minimum cosine in [0.01, 0.3], maximum zenith in [60, 89.9], '
          'extraterrestrial irradiance an arbitrary value in [1300, 1430] (get_extra_radiation replaced by that value and '
          'checked to be asked for the given day), Boland coefficients a in [1, 20], b in [0, 2]; exp an uninterpreted '
          'increasing positive function')
OUTSIDE = 'maximum zenith above 89.9 degrees, where the balance divides by a vanishing cosine'
DRIESSE = [+12.26911439571261, -16.470508424697307, +4.246926715218317, -0.11390585806313881, +0.946296633571001]


def diffuse_fraction(m, model, kt, a=None, b=None):
    if model == 'erbs':
        if kt <= 0.22:
            return 1 - 0.09 * kt
        if kt <= 0.8:
            return 0.9511 - 0.1604 * kt + 4.388 * kt**2 - 16.638 * kt**3 + 12.336 * kt**4
        return 0.165
    if model == 'erbs_driesse':
        if kt <= 0.216:
            return 1 - 0.09 * kt
        if kt <= 0.792:
            return DRIESSE[0] * kt**4 + DRIESSE[1] * kt**3 + DRIESSE[2] * kt**2 + DRIESSE[3] * kt + DRIESSE[4]
        return 0.165
    if model == 'orgill_hollands':
        if kt < 0.35:
            return 1 - 0.249 * kt
        if kt <= 0.75:
            return 1.557 - 1.84 * kt
        return 0.177
    return 1.0 / (1.0 + m.np.exp(a * (kt - b)))


def run(m, model, ghi, z, mc, mz, extra, how, a=None, b=None):
    f = getattr(m.pv.irradiance, model)
    asked = []

    def get(d, *_, **__):
        asked.append(d)
        return extra
    m.stub('irradiance', 'get_extra_radiation', get)
    k = dict(min_cos_zenith=mc, max_zenith=mz)
    if model == 'boland':
        k.update(a_coeff=a, b_coeff=b)
    if how == 'given extra':
        r = f(ghi, z, None, dni_extra=extra, **k)
        m.true('the supplied extraterrestrial irradiance is used', asked == [])
    else:
        r = f(ghi, z, 100, **k)
        m.true('extraterrestrial irradiance of the given day', len(asked) > 0 and all(d == 100 for d in asked))
    m.true('documented outputs', sorted(r) == ['dhi', 'dni', 'kt'])
    return m.item(r['dni']), m.item(r['dhi']), m.item(r['kt'])


def spec_kt(m, ghi, z, mc, extra):
    cz = m.cosd(z)
    k = ghi / (extra * (cz if cz >= mc else mc))
    return 0.0 if k < 0 else 1.0 if k > 1 else k


def model(m, model, how='day', limits=True):
    ghi, z, extra = m.real('ghi', -50, 2000), m.real('zen', 0, 180), m.real('extra', 1300, 1430)
    mc, mz = (m.real('mc', 0.01, 0.3), m.real('mz', 60, 89.9)) if limits else (0.065, 87)
    a = b = None
    if model == 'boland':
        a, b = m.real('a', 1, 20), m.real('b', 0, 2)
    dni, dhi, kt = run(m, model, ghi, z, mc, mz, extra, how, a, b)
    m.obs('dni', dni), m.obs('dhi', dhi), m.obs('kt', kt)
    if not limits:
        m.link(z, 87)
    m.notnan('DNI is a number', dni)
    m.between('clearness index', kt, 0, 1)
    m.ge('DNI is not negative', dni, 0, 0)
    k = spec_kt(m, ghi, z, mc, extra)
    m.eq('clearness index', kt, k)
    if z > mz or ghi < 0:
        if model == 'erbs_driesse' and ghi < 0:
            ghi = 0.0
        m.eq('no beam', dni, 0)
        m.eq('all of GHI is diffuse', dhi, ghi)
        return
    df = diffuse_fraction(m, model, k, a, b)
    m.between('diffuse fraction', df, 0, 1)
    cz = m.cosd(z)
    m.true('sun is up', cz > 0)
    m.eq('diffuse = fraction x GHI', dhi, df * ghi)
    m.eq('beam on the horizontal + diffuse = GHI', dni * cz + dhi, ghi)


def louche(m):
    """closure and night rule; kt limited to [0, 2] by clearness_index, the polynomial may give DNI < 0"""
    ghi, z, extra = m.real('ghi', -50, 2000), m.real('zen', 0, 180), m.real('extra', 1300, 1430)
    mz = m.real('mz', 60, 89.9)
    m.stub('irradiance', 'get_extra_radiation', lambda d, *_, **__: extra)
    r = m.pv.irradiance.louche(ghi, z, 100, max_zenith=mz)
    dni, dhi = m.item(r['dni']), m.item(r['dhi'])
    m.obs('dni', dni), m.obs('dhi', dhi)
    m.ge('DNI is not negative', dni, 0, 0)
    if z > mz or ghi < 0:
        m.eq('no beam', dni, 0)
        m.eq('all of GHI is diffuse', dhi, ghi)
    else:
        m.eq('beam on the horizontal + diffuse = GHI', dni * m.cosd(z) + dhi, ghi)


def campbell(m):
    z, tau, extra, am = m.real('zen', 0, 89.9), m.real('tau', 0.05, 0.99), m.real('extra', 1300, 1430), m.real('am', 1, 40)
    p = m.real('p', 50000, 110000)
    m.stub('atmosphere', 'get_relative_airmass', lambda q, model='kastenyoung1989': am)
    f = m.pv.irradiance.campbell_norman
    r = f(z, tau, p, extra)
    ghi, dni, dhi = (m.item(r[k]) for k in ('ghi', 'dni', 'dhi'))
    t = tau**(am * p / 101325.)
    m.obs('ghi', ghi)
    m.eq('beam', dni, extra * t)
    m.eq('diffuse', dhi, 0.3 * (1 - t) * extra * m.cosd(z))
    m.eq('balance', ghi, dni * m.cosd(z) + dhi)


def liujordan(m):
    z, tau, extra, am = m.real('zen', 0, 180), m.real('tau', 0.05, 0.99), m.real('extra', 1300, 1430), m.real('am', 1, 40)
    r = m.pv.irradiance._liujordan(z, tau, am, extra)
    ghi, dni, dhi = (m.item(r[k]) for k in ('ghi', 'dni', 'dhi'))
    m.obs('ghi', ghi)
    m.eq('beam', dni, extra * tau**am)
    m.eq('diffuse', dhi, 0.3 * (1 - tau**am) * extra * m.cosd(z))
    m.eq('balance', ghi, dni * m.cosd(z) + dhi)


def par(m):
    z, k = m.real('zen', 0, 90), m.real('k', 0, 1)
    r = m.item(m.pv.irradiance.diffuse_par_spitters(z, k))
    c, s = m.cosd(z), m.sind(z)
    m.obs('r', r)
    m.eq('published formula', r, (1 + 0.3 * (1 - k * k)) * k / (1 + (1 - k * k) * c * c * s * s * s))
    m.ge('not negative', r, 0, 0)


def jobs(tier):
    for mod in ('erbs', 'erbs_driesse', 'orgill_hollands', 'boland'):
        yield Job(mod, model, params=dict(model=mod))
        yield Job(mod + ', default limits', model, params=dict(model=mod, limits=False))
    for mod in ('erbs_driesse', 'orgill_hollands'):
        yield Job(mod + ', extra given', model, params=dict(model=mod, how='given extra'))
    yield Job('louche', louche)
    yield Job('campbell_norman', campbell)
    yield Job('liujordan', liujordan)
    yield Job('diffuse PAR', par)
