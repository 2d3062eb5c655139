import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P23'
FUNCTIONS = ['bifacial.utils.' + f for f in (
    '_solar_projection_tangent', '_unshaded_ground_fraction', 'vf_ground_sky_2d', 'vf_ground_sky_2d_integ', 'vf_row_sky_2d',
    'vf_row_sky_2d_integ', 'vf_row_ground_2d', 'vf_row_ground_2d_integ')]
BOUNDS = ('ground coverage ratio in [0.05, 0.99], pitch in [0.5, 20] m, clearance in [0.01, 5] m, rotations in [-90, 90], row tilts in '
          '[-179, 180], all positions and strips; unshaded ground: level rows with 2 rows on either side, or any rotation with 0 rows and a '
          'fixed strip; point factors with 0 (thorough: 1) rows to either side, strip factors with 1 row to either side')
OUTSIDE = 'more neighbouring rows than stated (the loop is over identical rows); that crossed strings around the row edges are the exact view factor'


def tangent(m, kind):
    z, a, s = m.real('zen', 0, 89.9), m.real('az', 0, 360), m.real('saz', -360, 720)
    f = m.pv.bifacial.utils._solar_projection_tangent
    if kind == 'scalar':
        r = f(z, a, s)
    elif kind == 'array':
        r = f(m.arr([z]), m.arr([a]), s)[0]
    else:
        r = f(pd.Series([z], index=[4]), pd.Series([a], index=[4]), s).loc[4]
    m.eq('tangent of the projected zenith', r * m.cosd(z), m.sind(z) * m.cosd(a - s), atol=1e-7)


def unshaded_level(m, kind):
    """level rows as far as the shadows reach"""
    a, T = m.real('a', 1.02, 20), m.real('tan', -1, 1)
    phi = m.np.degrees(m.np.arctan(T))
    f = m.pv.bifacial.utils._unshaded_ground_fraction
    if kind == 'scalar':
        u = m.item(f(0.0, phi, 1 / a, max_rows=2))
    else:
        u = m.item(f(m.arr([m.np.float64(0.0)]), m.arr([phi]), 1 / a, max_rows=2))
    m.obs('u', u)
    m.eq('complement of the shadow of endless level rows', u, 1 - 1 / a)


def unshaded(m, part, rows=0):
    """a strip of the ground; either the rows are level or the strip is fixed"""
    T = m.real('tan', -20, 20) if part == 'level' else m.real('tan', 0, 20) * (1 if part == 'right' else -1)
    phi = m.np.degrees(m.np.arctan(T))
    P, h = 3.0, 2.0
    if part == 'level':
        g, r = m.real('gcr', 0.05, 0.99), 0.0
        g0 = m.real('g0', 0, 0.9)
        g1 = g0 + m.real('len', 0.1, 0.9)
        m.assume(g1 <= 1)
    else:
        g, r, g0, g1 = 0.5, m.real('rot', -90, 90), 0.25, 0.75
    f = m.pv.bifacial.utils._unshaded_ground_fraction
    u = m.item(f(r, phi, g, height=h, pitch=P, max_rows=rows, g0=g0, g1=g1))
    m.obs('u', u)
    dx, dy = P * g * m.cosd(r) / 2, P * g * m.sind(r) / 2
    tot = 0
    b0, b1 = g0 * P, g1 * P
    for k in range(-rows, rows + 2):
        x, y = k * P + dx + (h + dy) * T, k * P - dx + (h - dy) * T
        if not x >= y:
            x, y = y, x
        # part of the shadow from y to x on the strip from b0 to b1
        if y >= b1 or x <= b0:
            continue
        tot = tot + ((x if x < b1 else b1) - (y if y > b0 else b0)) / (b1 - b0)
    e = 0.0 if abs(phi) > 85 else 0.0 if tot >= 1 else 1 - tot
    m.eq('complement of the shadows on the strip', u, e, atol=1e-7)


def geometry(m, sign):
    g, P = m.real('gcr', 0.05, 0.99), m.real('pitch', 0.5, 20)
    r = m.real('rot', 0.01, 90) * sign
    w = g * P
    dx, dy = w / 2 * m.cosd(r), w / 2 * m.sind(r)
    h = m.real('clear', 0.01, 5) + dy * sign
    return g, P, r, h, dx, dy


def gsky(m, sign, rows):
    g, P, r, h, dx, dy = geometry(m, sign)
    x = m.real('x', 0, 1)
    f = m.pv.bifacial.utils.vf_ground_sky_2d
    cos = lambda p: m.np.cos(m.np.arctan2(p[1], p[0]))
    edges = []
    for k in range(-rows, rows + 2):
        p, q = ((k - x) * P + dx, h + dy), ((k - x) * P - dx, h - dy)
        # p is seen further to the right than q
        edges.append((p, q) if p[0] * q[1] >= q[0] * p[1] else (q, p))
    v = m.item(f(r, g, x, P, h, max_rows=rows))
    m.obs('v', v)
    tot = 0
    for a, b in zip(edges, edges[1:]):
        # from the right edge of one row to the left edge of the next one
        c0, c1 = cos(a[0]), cos(b[1])
        tot = tot + (c1 - c0 if c1 > c0 else 0) / 2
    m.eq('sky seen between neighbouring rows', v, tot)
    m.between('range', v, 0, 1)


def row(m, what):
    g, t, x = m.real('a', 1.02, 20), m.real('tilt', 0, 180), m.real('x', 0, 1)
    gcr, u = 1 / g, m.pv.bifacial.utils
    c, s = m.cosd(t), m.sind(t)
    # from the point to the upper (lower) edge of the row in front, along and across its own slope
    top, bot = (1 - x) - g * c, -x - g * c
    sky = lambda e: m.item(u.vf_row_sky_2d(e, gcr, x))
    if what == 'values':
        m.square(top, g * s)
        m.square(bot, g * s)
        v = sky(t)
        m.obs('v', v)
        m.eq('sky above the upper edge of the row in front', v, (1 - top / m.np.sqrt(top**2 + (g * s)**2)) / 2)
        w = m.item(u.vf_row_ground_2d(t, gcr, x))
        m.eq('ground below the lower edge of the row in front', w, (1 + bot / m.np.sqrt(bot**2 + (g * s)**2)) / 2)
        m.between('range sky', v, 0, 1)
        m.between('range ground', w, 0, 1)
    elif what == 'ends':
        m.eq('nothing hides the sky from the top edge', m.item(u.vf_row_sky_2d(t, gcr, 1.0)), (1 + c) / 2)
        m.eq('nothing hides the ground from the bottom edge', m.item(u.vf_row_ground_2d(t, gcr, 0.0)), (1 - c) / 2)
        m.eq('level rows see the sky only', m.item(u.vf_row_sky_2d(0.0, gcr, x)), 1)
        m.eq('level rows do not see the ground', m.item(u.vf_row_ground_2d(0.0, gcr, x)), 0)
    else:
        r = u.vf_row_sky_2d(m.arr([t]), gcr, m.arr([x]))
        m.eq('array', r[0], sky(t))


def row_sky_integ(m, kind):
    g, t = m.real('a', 1.02, 20), m.real('tilt', 0, 180)
    l1, l2 = m.real('l1', 0.01, 0.5), m.real('l2', 0.01, 0.5)
    x0 = m.real('x0', 0, 0.98)
    x1, x2 = x0 + l1, x0 + l1 + l2
    m.assume(x2 <= 1)
    u, gcr = m.pv.bifacial.utils, 1 / g
    if kind == 'scalar':
        f = lambda e, p, q: m.item(u.vf_row_sky_2d_integ(e, gcr, x0=p, x1=q))
    else:
        f = lambda e, p, q: m.item(u.vf_row_sky_2d_integ(m.arr([e]), gcr, x0=m.arr([p]), x1=m.arr([q])))
    A, B, C = f(t, x0, x1), f(t, x1, x2), f(t, x0, x2)
    m.obs('A', A)
    m.eq('the average over two pieces is the average over their union', C * (l1 + l2), A * l1 + B * l2)
    # the distance to the upper edge of the row in front is the antiderivative of the cosine under which it is seen
    d = lambda x: m.np.sqrt((g * m.cosd(t) - (1 - x))**2 + (g * m.sind(t))**2)
    m.eq('average of the point factors', A, (1 + (d(x1) - d(x0)) / l1) / 2)
    lo = m.item(u.vf_row_sky_2d(t, gcr, x0))
    m.eq('a point', f(t, x0, x0), lo)
    m.eq('rows tilted the other way are seen from the other end', f(-t, x0, x1), f(t, 1 - x1, 1 - x0))
    m.eq('defaults are the whole row', m.item(u.vf_row_sky_2d_integ(t, gcr)), f(t, 0.0, 1.0))


def strings(m, a, b, c, d, ol, orr):
    """crossed strings between a-b and c-d around the obstacles to the left and to the right"""
    np = m.np
    dist = lambda p, q: np.sqrt((p[0] - q[0])**2 + (p[1] - q[1])**2)
    ang = lambda p, q: np.arctan2(q[1] - p[1], q[0] - p[0])

    def taut(p, q):
        r = np.where(ang(p, q) - ang(p, ol) > 1e-8, dist(p, ol) + dist(ol, q), dist(p, q))
        return np.where(ang(p, orr) - ang(p, q) > 1e-8, dist(p, orr) + dist(orr, q), r)
    return taut(a, c) + taut(b, d) - (taut(b, c) + taut(a, d))


def ground_integ(m, sign, rows, kind):
    g, P, r, h, dx, dy = geometry(m, sign)
    g0, ln = m.real('g0', 0, 0.9), m.real('len', 0.05, 0.9)
    g1 = g0 + ln
    f = m.pv.bifacial.utils.vf_ground_sky_2d_integ
    if kind == 'scalar':
        v = m.item(f(r, g, h, P, max_rows=rows, g0=g0, g1=g1))
    else:
        v = m.item(f(m.arr([r]), g, h, P, max_rows=rows, g0=m.arr([g0]), g1=m.arr([g1])))
    m.obs('v', v)
    np, tot = m.np, 0
    a, b = (g0 * P, 0), (g1 * P, 0)
    ang = lambda p, q: np.arctan2(q[1] - p[1], q[0] - p[0])
    low = lambda k: (k * P - dx, h - dy)
    upp = lambda k: (k * P + dx, h + dy)
    for k in range(-rows, rows + 1):
        # the edge of row k that is furthest to the right seen from a, of row k + 1 furthest to the left seen from b
        big = ang(a, low(k)) > ang(a, upp(k))
        ol = tuple(np.where(big, q, p) for p, q in zip(low(k), upp(k)))
        big = ang(b, low(k + 1)) > ang(b, upp(k + 1))
        orr = tuple(np.where(big, p, q) for p, q in zip(low(k + 1), upp(k + 1)))
        c = upp(k + 1) if sign > 0 else low(k + 1)
        d = upp(k) if sign > 0 else low(k)
        t = strings(m, a, b, c, d, ol, orr) / (2 * (g1 - g0) * P)
        tot = tot + np.maximum(t, 0)
    m.eq('crossed strings from the strip to the gaps between the rows', v, tot, atol=1e-7)


def row_ground(m, sign, rows, kind):
    g, P = m.real('gcr', 0.05, 0.99), m.real('pitch', 0.5, 20)
    t = m.real('tilt', 0 if sign > 0 else 0.01, 179) * sign
    w = g * P
    dx, dy = w * m.cosd(t), w * m.sind(t)
    cl = m.real('clear', 0.01, 5)
    h = cl + 0.5001 * dy * sign
    x0, lx, g0, lg = m.real('x0', 0, 0.9), m.real('lx', 0.05, 0.9), m.real('g0', 0, 0.9), m.real('lg', 0.05, 0.9)
    x1, g1 = x0 + lx, g0 + lg
    f = m.pv.bifacial.utils.vf_row_ground_2d_integ
    A = (lambda e: e) if kind == 'scalar' else (lambda e: m.arr([e]))
    m.assume(x1 <= 1)
    if sign < 0:
        for x in (x0, x1):
            m.have('the row is above the ground', cl + (1.0001 - x) * -dy > 0)
    v = m.item(f(A(t), g, h, P, x0=A(x0), x1=A(x1), max_rows=rows, g0=A(g0), g1=A(g1)))
    m.obs('v', v)
    # lower edges of the two neighbouring rows in front
    if sign > 0:
        orr = (-P - 0.5001 * dx, h - 0.5001 * dy)
        ol = (-0.5001 * dx, h - 0.5001 * dy)
    else:
        ol = (P + 0.5001 * dx, h + 0.5001 * dy)
        orr = (0.5001 * dx, h + 0.5001 * dy)
    a, b = ((x0 - 0.5) * dx, h + (x0 - 0.5) * dy), ((x1 - 0.5) * dx, h + (x1 - 0.5) * dy)
    tot = 0
    for k in range(-rows, rows):
        t_ = strings(m, a, b, ((k + g0) * P, 0), ((k + g1) * P, 0), ol, orr) / (2 * (x1 - x0) * w)
        tot = tot + m.np.maximum(t_, 0)
    m.eq('crossed strings from the row to the strips of ground', v, tot, atol=1e-7)


def jobs(tier):
    for k in ('scalar', 'array', 'series'):
        yield Job('projected tangent ' + k, tangent, params=dict(kind=k))
    for k in ('scalar', 'array'):
        yield Job('unshaded level %s' % k, unshaded_level, params=dict(kind=k))
    for p in ('level', 'left', 'right'):
        yield Job('unshaded strip, ' + p, unshaded, params=dict(part=p))
    for s in (1, -1):
        yield Job('ground-sky point %d' % s, gsky, params=dict(sign=s, rows=0 if tier == 'quick' else 1))
    for w in ('values', 'ends', 'array'):
        yield Job('row point factors, ' + w, row, params=dict(what=w))
    for k in ('scalar', 'array'):
        yield Job('row-sky averages ' + k, row_sky_integ, params=dict(kind=k))
        for s in (1, -1):
            yield Job('strip of ground to sky %d %s' % (s, k), ground_integ, params=dict(sign=s, rows=0 if k == 'array' else 1, kind=k), merge=True)
            yield Job('row to strips of ground %d %s' % (s, k), row_ground, params=dict(sign=s, rows=1, kind=k), merge=True)
