import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P09'
FUNCTIONS = ['tracking.singleaxis', 'tracking.calc_surface_orientation', 'tracking.calc_axis_tilt', 'tracking.calc_cross_axis_tilt',
             'shading.projected_solar_zenith_angle', 'irradiance.aoi', 'shading.shaded_fraction1d (level and sloped self shading)']
BOUNDS = ('apparent zenith in [0, 180], solar and axis azimuth in [0, 360], axis tilt in [0, 80], rotation in [-180, 180], rotation '
          'limits in [0, 90] (symmetric) or any min <= max in [-90, 90]; ground coverage ratio in [0.05, 1], cross-axis tilt in '
          '[-30, 30]; slope tilt in [0, 60]; scalars, arrays and series of up to 3 elements')
OUTSIDE = 'axis tilt above 80 degrees; the corner where sun and axis are parallel (projected position undefined)'


def frame(m, ga, be):
    """tracker frame: normal at zero rotation and the direction positive rotations turn to"""
    n0 = (m.sind(ga) * m.sind(be), m.cosd(ga) * m.sind(be), m.cosd(be))
    w = (m.cosd(ga), -m.sind(ga), 0.0)
    return n0, w


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def normal(m, th, ga, be):
    n0, w = frame(m, ga, be)
    return tuple(m.cosd(th) * a + m.sind(th) * b for a, b in zip(n0, w))


def sunvec(m, z, a):
    return (m.sind(z) * m.sind(a), m.sind(z) * m.cosd(a), m.cosd(z))


def axis(m):
    return m.real('axaz', 0, 360), m.real('axt', 0, 80)


def surface(m, kind='array'):
    ga, be = axis(m)
    th = m.real('theta', -180, 180)
    f = m.pv.tracking.calc_surface_orientation
    if kind == 'series':
        r = f(pd.Series([th], index=[3]), be, ga)
        m.true('frame on the same index', list(r.index) == [3])
        t, a = r['surface_tilt'].loc[3], r['surface_azimuth'].loc[3]
    else:
        r = f(th if kind == 'scalar' else m.arr([th]), be, ga)
        t, a = m.item(r['surface_tilt']), m.item(r['surface_azimuth'])
    m.obs('tilt', t), m.obs('az', a)
    m.between('tilt', t, 0, 180)
    m.ge('azimuth not below 0', a, 0, 0)
    m.true('azimuth below 360', a < 360)
    n = normal(m, th, ga, be)
    m.eq('cosine of the tilt', m.cosd(t), n[2], atol=1e-7)
    s = m.sind(t)
    m.eq('east component of the normal', s * m.sind(a), n[0], atol=1e-6)
    m.eq('north component of the normal', s * m.cosd(a), n[1], atol=1e-6)


def surface_flat(m):
    ga = m.real('axaz', -360, 360)
    r = m.pv.tracking.calc_surface_orientation(m.arr([0.0]), 0.0, ga)
    t, a = m.item(r['surface_tilt']), m.item(r['surface_azimuth'])
    m.eq('flat', t, 0)
    e = ga - 90
    e = e + 720 if e < -360 else e + 360 if e < 0 else e
    m.eq('azimuth of a flat panel is 90 degrees left of the axis', a, e)


def call(m, z, sa, kind, **kw):
    f = m.pv.tracking.singleaxis
    if kind == 'series':
        r = f(pd.Series([z], index=[3]), pd.Series([sa], index=[3]), **kw)
        m.true('frame on the same index', list(r.index) == [3])
        return {k: r[k].loc[3] for k in r}
    if kind == 'array':
        z, sa = m.arr([z]), m.arr([sa])
    return {k: m.item(v) for k, v in f(z, sa, **kw).items()}


KEYS = ['aoi', 'surface_azimuth', 'surface_tilt', 'tracker_theta']


def down(m, kind, backtrack):
    """the sun is below the horizon"""
    ga, be = axis(m)
    z, sa = m.real('zen', 90, 180, lo_open=True), m.real('saz', 0, 360)
    r = call(m, z, sa, kind, axis_tilt=be, axis_azimuth=ga, backtrack=backtrack)
    m.true('outputs', sorted(r) == KEYS)
    for k in r:
        m.nan('sun below the horizon: ' + k, r[k])


def sun(m, ga, be):
    z, sa = m.real('zen', 0, 90), m.real('saz', 0, 360)
    s = sunvec(m, z, sa)
    n0, w = frame(m, ga, be)
    sx, sz = dot(s, w), dot(s, n0)
    return z, sa, sx, sz


def follow(m, kind='scalar', part='angle'):
    """true tracking"""
    ga, be = axis(m)
    z, sa, sx, sz = sun(m, ga, be)
    m.assume((sx * sx + sz * sz) >= 1e-6)
    lim = m.real('max', 0, 90)
    r = call(m, z, sa, kind, axis_tilt=be, axis_azimuth=ga, backtrack=False, max_angle=lim)
    th = r['tracker_theta']
    m.obs('theta', th)
    m.le('rotation at most the limit', th, lim, 0)
    m.ge('rotation at least minus the limit', th, -lim, 0)
    om = m.item(m.pv.shading.projected_solar_zenith_angle(z, sa, be, ga))
    e = -lim if om < -lim else lim if om > lim else om
    m.eq('rotation is the projected sun angle within the limits', th, e)
    o = m.pv.tracking.calc_surface_orientation(m.arr([th]), be, ga)
    m.eq('tilt of the reported rotation', r['surface_tilt'], m.item(o['surface_tilt']))
    m.eq('azimuth of the reported rotation', r['surface_azimuth'], m.item(o['surface_azimuth']))
    m.eq('angle of incidence of the reported orientation', r['aoi'],
         m.item(m.pv.irradiance.aoi(r['surface_tilt'], r['surface_azimuth'], z, sa)))


def psza(m):
    """the angle of the sun projected on the plane across the axis"""
    ga, be = axis(m)
    z, sa = m.real('zen', 0, 180), m.real('saz', 0, 360)
    s = sunvec(m, z, sa)
    n0, w = frame(m, ga, be)
    sx, sz = dot(s, w), dot(s, n0)
    m.assume((sx * sx + sz * sz) >= 1e-6)
    om = m.item(m.pv.shading.projected_solar_zenith_angle(z, sa, be, ga))
    m.obs('om', om)
    m.between('range', om, -180, 180)
    # (sx, sz) points along (sin om, cos om)
    m.eq('parallel', m.sind(om) * sz, m.cosd(om) * sx, atol=1e-6)
    m.eq('same sense', m.sind(om) * sx + m.cosd(om) * sz, m.np.sqrt(sx * sx + sz * sz), atol=1e-6)


def best(m):
    """no rotation of the axis gives a smaller angle of incidence than the projected sun angle"""
    ga, be = axis(m)
    z, sa, sx, sz = sun(m, ga, be)
    m.assume((sx * sx + sz * sz) >= 1e-6)
    lim = m.real('max', 0, 90)
    m.stub('irradiance', 'aoi', lambda *a, **k: m.arr([0.0]))
    r = call(m, z, sa, 'scalar', axis_tilt=be, axis_azimuth=ga, backtrack=False, max_angle=lim)
    th = r['tracker_theta']
    m.assume(th < lim)
    m.assume(th > -lim)
    m.assume(r['surface_tilt'] > 0)
    n = normal(m, 0.0, r['surface_azimuth'], r['surface_tilt'])
    # any rotation q of this axis gives cos(q) sz + sin(q) sx, which is at most sqrt(sx^2 + sz^2)
    m.eq('largest cosine of incidence', dot(n, sunvec(m, z, sa)), m.np.sqrt(sx * sx + sz * sz), atol=1e-6)


def quiet(m, om):
    """the projected sun angle given, orientation and incidence left out (decided by the jobs above)"""
    m.stub('shading', 'projected_solar_zenith_angle', lambda *a, **k: m.arr([om]))
    m.stub('tracking', 'calc_surface_orientation', lambda *a, **k: dict(surface_tilt=m.arr([0.0]), surface_azimuth=m.arr([0.0])))
    m.stub('irradiance', 'aoi', lambda *a, **k: m.arr([0.0]))


def pair(m, backtrack):
    """an asymmetric range of rotations"""
    ga, be = 180., 0.
    z, sa = m.real('zen', 0, 90), m.real('saz', 0, 360)
    om = m.real('om', -180, 180)
    quiet(m, om)
    lo = m.real('min', -90, 90)
    hi = m.real('max', -90, 90)
    m.assume(lo <= hi)
    r = call(m, z, sa, 'scalar', axis_tilt=be, axis_azimuth=ga, backtrack=backtrack, max_angle=(lo, hi))
    th = r['tracker_theta']
    m.between('inside the given range', th, lo, hi, 0)
    if not backtrack:
        m.eq('projected sun angle within the range', th, lo if om < lo else hi if om > hi else om)


def backtrack(m, slope, kind='scalar', low=False):
    """backtracking: sun in the plane across a level axis pointing south"""
    om = m.real('om', -90, 90)
    bc = m.real('cross', -30, 30) if slope else 0.0
    gcr = m.real('gcr', 0.05, 1.0)
    quiet(m, om)
    lim = m.real('max', 0, 90)
    z = m.real('zen', 0, 90)
    s = m.cosd(om - bc)                       # cosine between the sun and the normal of the row plane
    m.assume(s > 0.001)
    q = s / (gcr * m.cosd(bc))                # row distance across the sun beam, in collector widths
    cut = q < 1
    r = call(m, z, 180.0, kind, axis_tilt=0.0, axis_azimuth=180.0, backtrack=True, max_angle=lim, gcr=gcr, cross_axis_tilt=bc)
    th = r['tracker_theta']
    m.obs('theta', th)
    m.le('rotation at most the limit', th, lim, 0)
    m.ge('rotation at least minus the limit', th, -lim, 0)
    if not cut:
        m.eq('true tracking when rows do not shade each other', th, -lim if om < -lim else lim if om > lim else om)
        return
    m.assume(th < lim)
    m.assume(th > -lim)
    if om == 0:
        return
    c = m.cosd(th) * m.cosd(om) + m.sind(th) * m.sind(om)
    m.eq('rows just stop shading each other', c, q, atol=1e-7)
    if om > 0:
        m.le('turned back', th, om)
        m.ge('by at most 90 degrees', th, om - 90)
    else:
        m.ge('turned back', th, om)
        m.le('by at most 90 degrees', th, om + 90)


def unshaded(m):
    """with backtracking, one-dimensional shading of level rows is zero"""
    om = m.real('om', -85, 85)
    gcr = m.real('gcr', 0.05, 1.0)
    quiet(m, om)
    lim = 90.0
    r = call(m, 50.0, 180.0, 'scalar', axis_tilt=0.0, axis_azimuth=180.0, backtrack=True, max_angle=lim, gcr=gcr)
    th = r['tracker_theta']
    m.assume(abs(om) > 1e-3)
    f = m.item(m.pv.shading.shaded_fraction1d(50.0, 180.0, 180.0, th, collector_width=gcr, pitch=1.0))
    m.eq('shaded fraction', f, 0, atol=1e-6)


def axis_tilt(m):
    """an axis laid on a slope lies in the plane of the slope"""
    gs, st, ga = m.real('sloaz', 0, 360), m.real('slot', 0, 60), m.real('axaz', 0, 360)
    b = m.item(m.pv.tracking.calc_axis_tilt(gs, st, ga))
    m.obs('b', b)
    m.between('range', b, -90, 90)
    u = (m.sind(ga) * m.cosd(b), m.cosd(ga) * m.cosd(b), -m.sind(b))
    m.eq('axis lies in the slope', dot(u, normal(m, 0.0, gs, st)), 0, atol=1e-7)


def cross(m):
    """the line across the axis within the slope"""
    gs, st, ga = m.real('sloaz', 0, 360), m.real('slot', 0, 60), m.real('axaz', 0, 360)
    b = m.real('axt', -60, 60)
    n0, w = frame(m, ga, b)
    ns = normal(m, 0.0, gs, st)
    m.assume(dot(n0, ns) >= 0.1)
    m.assume(dot(n0, ns) > 0)
    m.square(dot(n0, ns))
    m.square(dot(w, ns), dot(n0, ns))
    c = m.item(m.pv.tracking.calc_cross_axis_tilt(gs, st, ga, b))
    m.obs('c', c)
    m.between('range', c, -90, 90)
    # line = cos(c) w - sin(c) n0 with line . ns = 0 and |c| <= 90
    p, q = dot(w, ns), dot(n0, ns)
    m.eq('line lies in the slope', m.sind(c) * m.np.sqrt(p * p + q * q), p, atol=1e-6)


def elements(m):
    """elements do not influence each other"""
    z = m.real('zen', 0, 90)
    f = m.pv.tracking.singleaxis
    m.stub('irradiance', 'aoi', lambda *a: m.arr([m.uf('aoi', *v) for v in zip(*[np.ravel(x) for x in a])]))
    r = f(m.arr([z, 95.0, 30.0]), m.arr([100.0, 110.0, 250.0]), 0, 180, 60, True, 0.4)
    q = f(z, 100.0, 0, 180, 60, True, 0.4)
    for k in KEYS:
        m.eq('element of an array: ' + k, r[k][0], m.item(q[k]))
        m.nan('sun down', r[k][1])
        m.notnan('sun up', r[k][2])


def jobs(tier):
    for k in ('scalar', 'array', 'series'):
        yield Job('surface orientation ' + k, surface, params=dict(kind=k))
        for b in (False, True):
            yield Job('sun down %s%s' % (k, ', backtracking' if b else ''), down, params=dict(kind=k, backtrack=b))
        yield Job('true tracking ' + k, follow, params=dict(kind=k))
    yield Job('flat panel', surface_flat)
    yield Job('projected sun angle', psza)
    yield Job('smallest angle of incidence', best)
    for b in (False, True):
        yield Job('range of rotations' + (', backtracking' if b else ''), pair, params=dict(backtrack=b))
    yield Job('backtracking', backtrack, params=dict(slope=False))
    yield Job('backtracking on a cross slope', backtrack, params=dict(slope=True))
    yield Job('backtracking series', backtrack, params=dict(slope=False, kind='series'))
    yield Job('no shade with backtracking', unshaded)
    yield Job('axis on a slope', axis_tilt)
    yield Job('cross-axis tilt', cross)
    yield Job('elements', elements)
