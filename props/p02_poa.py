from pvsym.cli import Job
from props.p01_aoi import orient, dot
PROPERTY = 'P02'
FUNCTIONS = ['irradiance.get_total_irradiance', 'irradiance.get_sky_diffuse', 'irradiance.get_ground_diffuse',
             'irradiance.poa_components']
BOUNDS = ('tilt in [0, 180], azimuths in [-360, 720], zenith in [0, 180], irradiances in [0, 1500] (DNI extra 1300..1430), albedo in [0, 1], '
          'every sky model, every surface type; sky models are replaced by arbitrary non-negative values after checking '
          'that each receives exactly its own arguments (their values are the subject of P03)')
OUTSIDE = 'negative irradiance'
MODELS = ['isotropic', 'klucher', 'haydavies', 'reindl', 'king', 'perez', 'perez-driesse']
ARGS = dict(isotropic=('surface_tilt', 'dhi'),
            klucher=('surface_tilt', 'surface_azimuth', 'dhi', 'ghi', 'solar_zenith', 'solar_azimuth'),
            haydavies=('surface_tilt', 'surface_azimuth', 'dhi', 'dni', 'dni_extra', 'solar_zenith', 'solar_azimuth'),
            reindl=('surface_tilt', 'surface_azimuth', 'dhi', 'dni', 'ghi', 'dni_extra', 'solar_zenith', 'solar_azimuth'),
            king=('surface_tilt', 'dhi', 'ghi', 'solar_zenith'),
            perez=('surface_tilt', 'surface_azimuth', 'dhi', 'dni', 'dni_extra', 'solar_zenith', 'solar_azimuth', 'airmass'))
ARGS['perez-driesse'] = ARGS['perez']


def inputs(m, zmax=180):
    t, sa, z, a = orient(m, zmax=zmax)
    return dict(surface_tilt=t, surface_azimuth=sa, solar_zenith=z, solar_azimuth=a, dni=m.real('dni', 0, 1500),
                ghi=m.real('ghi', 0, 1500), dhi=m.real('dhi', 0, 1500), dni_extra=m.real('extra', 1300, 1430),
                airmass=m.real('am', 1, 40))


def total(m, model, comps):
    """identities with the real sky model"""
    v = inputs(m)
    alb = m.real('albedo', 0, 1)
    r = m.pv.irradiance.get_total_irradiance(**v, albedo=alb, model=model, diffuse_components=comps)
    g, b, d, s, gr = (m.item(r[k]) for k in ('poa_global', 'poa_direct', 'poa_diffuse', 'poa_sky_diffuse', 'poa_ground_diffuse'))
    m.obs('direct', b)
    m.obs('ground', gr)
    m.eq('global = direct + diffuse', g, b + d)
    m.eq('diffuse = sky + ground', d, s + gr)
    m.eq('ground = GHI x albedo x (1 - cos tilt)/2', gr, v['ghi'] * alb * (1 - m.cosd(v['surface_tilt'])) / 2)
    bd = v['dni'] * dot(m, v['surface_tilt'], v['surface_azimuth'], v['solar_zenith'], v['solar_azimuth'])
    m.eq('direct = DNI x non-negative cosine of incidence', b, bd if bd >= 0 else 0)
    if comps:
        parts = [k for k in r if k not in ('poa_global', 'poa_direct', 'poa_diffuse', 'poa_sky_diffuse', 'poa_ground_diffuse')]
        m.true('components are reported', len(parts) >= 1)


def wiring(m, model):
    """each sky model receives its own arguments; its result becomes the sky diffuse"""
    v = inputs(m)
    got = {}
    name = model.replace('-', '_')

    def stub(*a, **k):
        import inspect
        names = list(inspect.signature(real).parameters)
        got.update(dict(zip(names, a)))
        got.update(k)
        return sky
    sky = m.real('sky', 0, 1000)
    real = getattr(m.pv.irradiance, name)
    m.stub('irradiance', name, stub)
    up = m.choice('case', [model, model.upper(), model.capitalize()])
    kw = dict(model_perez='phoenix1988') if model == 'perez' else {}
    r = m.pv.irradiance.get_total_irradiance(**v, model=up, **kw)
    m.eq('the selected model provides the sky diffuse', r['poa_sky_diffuse'], sky)
    for k in ARGS[model]:
        m.eq('argument %s' % k, got.get(k, None), v[k])
    if model == 'perez':
        m.eq('coefficient set', got.get('model'), 'phoenix1988')


def ground(m):
    types = sorted(m.pv.albedo.SURFACE_ALBEDOS)
    st = m.choice('type', types)
    t, ghi, alb = m.real('tilt', 0, 180), m.real('ghi', 0, 1500), m.real('albedo', 0, 1)
    f = m.pv.irradiance.get_ground_diffuse
    m.eq('a named surface uses its tabulated albedo', f(t, ghi, alb, surface_type=st),
         ghi * TABLE[st] * (1 - m.cosd(t)) / 2)
    m.eq('default albedo is 0.25', f(t, ghi), f(t, ghi, 0.25))
    z, a = m.real('zen', 0, 89), m.real('az', 0, 360)
    r = m.pv.irradiance.get_total_irradiance(t, 180., z, a, 100., ghi, 50., surface_type=st, albedo=alb)
    m.eq('surface type through the total', r['poa_ground_diffuse'], ghi * TABLE[st] * (1 - m.cosd(t)) / 2)


TABLE = {'urban': 0.18, 'grass': 0.20, 'fresh grass': 0.26, 'soil': 0.17, 'sand': 0.40, 'snow': 0.65,
         'fresh snow': 0.75, 'asphalt': 0.12, 'concrete': 0.30, 'aluminum': 0.85, 'copper': 0.74,
         'fresh steel': 0.35, 'dirty steel': 0.08, 'sea': 0.06}


def components(m, kind):
    """poa_components with arbitrary parts"""
    a, dni = m.real('aoi', 0, 180), m.real('dni', 0, 1500)
    iso, circ, hor = m.real('iso', 0, 500), m.real('circ', 0, 500), m.real('hor', 0, 100)
    gr = m.real('ground', 0, 500)
    tot = iso + circ + hor
    sky = dict(poa_sky_diffuse=tot, poa_isotropic=iso, poa_circumsolar=circ, poa_horizon=hor) if kind == 'dict' else tot
    r = m.pv.irradiance.poa_components(a, dni, sky, gr)
    b = dni * m.cosd(a)
    b = b if b >= 0 else 0
    m.eq('direct', r['poa_direct'], b)
    m.eq('sky', r['poa_sky_diffuse'], tot)
    m.eq('ground', r['poa_ground_diffuse'], gr)
    m.eq('diffuse', r['poa_diffuse'], tot + gr)
    m.eq('global', r['poa_global'], b + tot + gr)
    if kind == 'dict':
        for k in sky:
            m.eq('component ' + k, r[k], sky[k])
        m.true('the sky components given are not modified', set(sky) == {'poa_sky_diffuse', 'poa_isotropic', 'poa_circumsolar', 'poa_horizon'})


def unknown(m):
    v = inputs(m, 89)
    bad = m.choice('name', ['', 'iso', 'perezdriesse', 'perez_driesse', 'hay-davies', 'none', 'isotropi', 'kluch', 'a'])
    m.raises('unknown models are rejected', ValueError, m.pv.irradiance.get_total_irradiance, **v, model=bad)
    need = m.choice('need', ['haydavies', 'reindl', 'perez', 'perez-driesse'])
    w = dict(v, dni_extra=None)
    m.raises('a missing extraterrestrial irradiance is rejected', ValueError, m.pv.irradiance.get_total_irradiance, **w, model=need)
    noc = m.choice('nocomp', ['klucher', 'king'])
    m.raises('components are rejected where the model has none', ValueError, m.pv.irradiance.get_total_irradiance, **v,
             model=noc, diffuse_components=True)


def default_airmass(m, model):
    v = inputs(m, 89)
    am = v.pop('airmass')
    seen = []

    def gra(z, *a, **k):
        seen.append((z, a, k))
        return am
    m.stub('atmosphere', 'get_relative_airmass', gra)
    r = m.pv.irradiance.get_sky_diffuse(**v, model='perez')
    m.true('airmass is computed from the zenith', len(seen) == 1)
    m.eq('airmass from the zenith', seen[0][0], v['solar_zenith'])
    m.eq('default airmass', r, m.pv.irradiance.get_sky_diffuse(**v, airmass=am, model='perez'))


def jobs(tier):
    for k in MODELS:
        yield Job('wiring ' + k, wiring, params=dict(model=k))
    for k in MODELS[:5] + (['perez'] if tier == 'thorough' else []):
        yield Job('total ' + k, total, params=dict(model=k, comps=False))
        if k in ('isotropic', 'haydavies', 'reindl'):
            yield Job('total components ' + k, total, params=dict(model=k, comps=True))
    yield Job('ground', ground)
    yield Job('components dict', components, params=dict(kind='dict'))
    yield Job('components plain', components, params=dict(kind='plain'))
    yield Job('unknown', unknown)
