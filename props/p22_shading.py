import numpy as np
import pandas as pd
from pvsym.cli import Job
from props.p09_tracking import psza
PROPERTY = 'P22'
FUNCTIONS = ['shading.ground_angle', 'shading.masking_angle', 'shading.masking_angle_passias', 'shading.sky_diffuse_passias',
             'shading.projected_solar_zenith_angle', 'shading.shaded_fraction1d', 'shading.direct_martinez']
BOUNDS = ('row rotations in [-90, 90], projected sun angle in [-90, 90], cross-axis slope in [-45, 45] degrees, axis offset in '
          '[-0.5, 0.5] m, collector width in [0.5, 3] m, pitch in [0.5, 20] m, the sun at least 0.06 degrees off the shaded row\'s plane; tilt in '
          '[0, 180] (Passias: [1, 179] and the ends), gcr in [0.05, 0.99], slant height in [0, 1]; up to 20 blocks')
OUTSIDE = 'rows tilted past the vertical'


def fraction(m, part, kind='scalar'):
    ths = m.real('ths', -90, 90)
    t2 = m.real('rot', -90, 90)
    t1 = t2 if part == 'same' else m.real('rot1', -90, 90)
    W, P = m.real('width', 0.5, 3), m.real('pitch', 0.5, 20)
    z0 = m.real('offset', -0.5, 0.5) if part != 'plain' else 0.0
    bc = m.real('cross', -45, 45) if part != 'plain' else 0.0
    zen, az, ax, at = m.real('zen', 0, 90), m.real('az', 0, 360), m.real('axis', 0, 360), m.real('axt', 0, 30)
    seen = []

    def proj(*a, **k):
        d = dict(zip(('solar_zenith', 'solar_azimuth', 'axis_tilt', 'axis_azimuth'), a))
        d.update(k)
        seen.append(d)
        return ths if kind == 'scalar' else m.arr([ths]) if kind == 'array' else pd.Series([ths], index=[5])
    m.stub('shading', 'projected_solar_zenith_angle', proj)
    # half widths and centres of both rows seen along the beam
    w2, w1 = W / 2 * abs(m.cosd(t2 - ths)), W / 2 * abs(m.cosd(t1 - ths))
    m.assume(abs(m.cosd(t2 - ths)) >= 1e-3)
    if part != 'plain':
        m.assume(ths != 0)
    kw = {} if part == 'same' else dict(shading_row_rotation=t1)
    kw.update(collector_width=W, pitch=P)
    if part != 'plain':
        kw.update(surface_to_axis_offset=z0, cross_axis_slope=bc)
    x = t2 if kind == 'scalar' else m.arr([t2]) if kind == 'array' else pd.Series([t2], index=[5])
    f = m.pv.shading.shaded_fraction1d(zen, az, ax, x, axis_tilt=at, **kw)
    if kind == 'series':
        m.true('series on the same index', isinstance(f, pd.Series) and list(f.index) == [5])
        f = f.loc[5]
    f = m.item(f)
    m.obs('f', f)
    m.between('range', f, 0, 1, 0)
    for d in seen:
        m.true('sun and axis handed to the projection', d['solar_zenith'] is zen and d['solar_azimuth'] is az and
               d['axis_tilt'] is at and d['axis_azimuth'] is ax)
    c2 = z0 * m.sind(t2 - ths)
    side = P * (m.cosd(ths) + m.sind(bc) / m.cosd(bc) * m.sind(ths))
    if ths >= 0:
        over = (w1 + w2) + (c2 - (side + z0 * m.sind(t1 - ths)))
    else:
        over = (w1 + w2) - (c2 - (-side + z0 * m.sind(t1 - ths)))
    e = over / (2 * w2)
    m.eq('overlap of the two rows across the beam', f, 0.0 if e < 0 else 1.0 if e > 1 else e, rtol=1e-8, atol=1e-9)


def no_shade(m):
    """rows further apart than their width across the beam"""
    ths, t = m.real('ths', -85, 85), m.real('rot', -90, 90)
    P = m.real('pitch', 1, 20)
    m.assume(abs(m.cosd(t - ths)) >= 1e-3)
    m.assume(P * m.cosd(ths) >= abs(m.cosd(t - ths)))
    m.stub('shading', 'projected_solar_zenith_angle', lambda *a, **k: ths)
    m.eq('no shade', m.item(m.pv.shading.shaded_fraction1d(30., 180., 180., t, collector_width=1.0, pitch=P)), 0, atol=1e-9)


def ground(m):
    t, g, h = m.real('tilt', 0, 180), m.real('gcr', 0.05, 0.99), m.real('h', 0, 1)
    a = m.item(m.pv.shading.ground_angle(t, g, h))
    m.obs('a', a)
    m.between('range', a, 0, 90)
    # seen from the foot of the previous row: the point at slant height h (fraction of the row) above the ground
    m.eq('elevation of a point on the row', m.sind(a) * (g * h * m.cosd(t) + 1), m.cosd(a) * g * h * m.sind(t), atol=1e-7)


def masking(m):
    t, g, h = m.real('tilt', 0, 180), m.real('gcr', 0.05, 0.99), m.real('h', 0, 1)
    a = m.item(m.pv.shading.masking_angle(t, g, h))
    m.obs('a', a)
    m.between('range', a, 0, 90)
    m.eq('elevation of the row in front', m.sind(a) * (1 / g - (1 - h) * m.cosd(t)), m.cosd(a) * (1 - h) * m.sind(t), atol=1e-6)
    m.eq('top of the row sees no mask', m.item(m.pv.shading.masking_angle(t, g, 1.0)), 0)
    m.eq('level rows do not mask', m.item(m.pv.shading.masking_angle(0.0, g, h)), 0)


def passias(m, kind):
    t, g = m.real('tilt', 1, 179), m.real('gcr', 0.05, 0.99)
    f = m.pv.shading.masking_angle_passias
    r = m.item(f(t, g)) if kind == 'scalar' else f(pd.Series([t], index=[6]), g).loc[6] if kind == 'series' else f(m.arr([t]), g)[0]
    X = 1 / g
    s, c = m.sind(t), m.cosd(t)
    ln, at = m.np.log, m.np.arctan
    d = X * X + 1 - 2 * X * c
    # the mean over slant heights u in [0, 1] of arctan(u sin / (X - u cos)), integrated by parts
    e = -X * s / 2 * ln(d) + (X * c - 1) * at((X * c - 1) / (X * s)) + (1 - X * c) * at(c / s) + X * s * ln(X)
    m.eq('published formula', r, e * 180 / m.np.pi, rtol=1e-8)


def passias_ends(m):
    g = m.real('gcr', 0.05, 0.99)
    m.eq('level rows do not mask', m.item(m.pv.shading.masking_angle_passias(0.0, g)), 0)
    r = m.pv.shading.masking_angle_passias(m.arr([0.0, 0.0]), g)
    m.eq('array', r[1], 0)


def loss(m):
    a = m.real('mask', 0, 180)
    r = m.pv.shading.sky_diffuse_passias(a)
    m.eq('share of the isotropic sky below the mask', r, (1 - m.cosd(a)) / 2)
    m.between('range', r, 0, 1)


def martinez(m, kind):
    tot = m.int('total', 1, 20)
    n = m.real('blocks', 0, 20)
    m.assume(n <= tot)
    f = m.real('shaded', 0, 1)
    b, d = m.real('direct', 0, 1500), m.real('diffuse', 0.1, 1000)
    g = b + d
    args = [g, b, f, n] if kind == 'scalar' else [m.arr([x]) for x in (g, b, f, n)]
    r = m.item(m.pv.shading.direct_martinez(*args, tot))
    m.obs('r', r)
    e = 1 - (b * (1 - f) * (1 - m.np.ceil(n) / (1 + tot)) + d) / g
    m.eq('stated combination', r, e)
    m.ge('at least the shaded share of the beam', r * g, f * b, 1e-6)
    m.le('at most the share of the beam', r * g, b, 1e-6)
    m.eq('no loss without shade', m.item(m.pv.shading.direct_martinez(g, b, 0.0, 0, tot)), 0)


def jobs(tier):
    for p in ('plain', 'same', 'full'):
        yield Job('shaded fraction, ' + p, fraction, params=dict(part=p))
    for k in ('array', 'series'):
        yield Job('shaded fraction ' + k, fraction, params=dict(part='plain', kind=k))
    yield Job('rows far apart', no_shade)
    yield Job('projected sun angle', psza)
    yield Job('ground angle', ground)
    yield Job('masking angle', masking)
    for k in ('scalar', 'array', 'series'):
        yield Job('passias ' + k, passias, params=dict(kind=k))
    yield Job('passias, level', passias_ends)
    yield Job('diffuse loss', loss)
    for k in ('scalar', 'array'):
        yield Job('martinez ' + k, martinez, params=dict(kind=k))
