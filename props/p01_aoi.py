from pvsym.cli import Job
PROPERTY = 'P01'
FUNCTIONS = ['irradiance.aoi_projection', 'irradiance.aoi', 'irradiance.beam_component', 'tools.cosd', 'tools.sind']
BOUNDS = ('tilt in [0, 180], surface azimuth in [-360, 720], zenith in [0, 180], solar azimuth in [-360, 720] degrees, '
          'DNI in [0, 2000]; scalars and arrays of 2')
OUTSIDE = 'tilt or zenith outside [0, 180]'


def orient(m, q='', zmax=180):
    return (m.real('tilt' + q, 0, 180), m.real('saz' + q, -360, 720), m.real('zen' + q, 0, zmax),
            m.real('az' + q, -360, 720))


def dot(m, t, sa, z, a):
    """panel normal . sun direction (east, north, up)"""
    n = (m.sind(t) * m.sind(sa), m.sind(t) * m.cosd(sa), m.cosd(t))
    s = (m.sind(z) * m.sind(a), m.sind(z) * m.cosd(a), m.cosd(z))
    return sum(x * y for x, y in zip(n, s))


def projection(m):
    o = orient(m)
    p = m.pv.irradiance.aoi_projection(*o)
    m.obs('p', p)
    m.eq('projection is the dot product of panel normal and sun direction', p, dot(m, *o))
    m.between('cosine of incidence', p, -1, 1, 0)


def arr2(m):
    o, q = orient(m), orient(m, 'b')
    cols = [m.arr([x, y]) for x, y in zip(o, q)]
    f = m.pv.irradiance
    p, b = f.aoi_projection(*cols), f.beam_component(*cols, m.arr([500., 700.]))
    for k, w in enumerate((o, q)):
        d = dot(m, *w)
        m.eq('projection, element of an array', p[k], d)
        m.eq('beam, element of an array', b[k], (500., 700.)[k] * d if d >= 0 else 0)


def angle(m):
    o = orient(m)
    a = m.item(m.pv.irradiance.aoi(*o))
    m.obs('aoi', a)
    m.between('angle of incidence', a, 0, 180)
    m.eq('cosine of the reported angle', m.cosd(a), dot(m, *o), atol=1e-7)


def turn(m, which, k):
    o = orient(m)
    t = list(o)
    t[which] = t[which] + 360 * k
    f = m.pv.irradiance
    m.eq('a full turn changes nothing (projection)', f.aoi_projection(*t), f.aoi_projection(*o))
    m.eq('a full turn changes nothing (beam)', f.beam_component(*t, 1000.), f.beam_component(*o, 1000.))


def beam(m):
    o = orient(m)
    dni = m.real('dni', 0, 2000)
    b = m.item(m.pv.irradiance.beam_component(*o, dni))
    d = dot(m, *o)
    m.obs('beam', b)
    m.ge('beam is not negative', b, 0, 0)
    if dni * d >= 0:
        m.eq('beam = DNI x cosine of incidence', b, dni * d)
    else:
        m.eq('no beam from behind the panel', b, 0)


def jobs(tier):
    yield Job('projection', projection)
    yield Job('aoi', angle)
    yield Job('beam', beam)
    yield Job('arrays', arr2)
    for w, n in ((1, 'surface'), (3, 'solar')):
        for k in (-1, 1):
            yield Job('turn %s %+d' % (n, k), turn, params=dict(which=w, k=k))
