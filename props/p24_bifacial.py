import inspect
import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P24'
FUNCTIONS = ['bifacial.infinite_sheds.' + f for f in ('_shaded_fraction', 'get_irradiance_poa', 'get_irradiance')] + [
    'bifacial.ants2d.' + f for f in ('_shaded_fraction', '_ants2d_singleside', '_apply_sky_diffuse_model', '_apply_ground_slope',
                                     'get_irradiance')] + ['bifacial.loss_models.power_mismatch_deline']
BOUNDS = ('all orientations and tracker rotations, sun down to 85 degrees zenith (89 for shading), irradiances up to 1500 W/m2, albedo and incidence '
          'angle factors in [0, 1], all row spacings and heights; infinite sheds: scalar, array and series inputs; ants2d: 1 and 2 row segments, 1 and 2 '
          'ground segments, 1 and 2 time stamps, level and sloped ground, isotropic and Hay-Davies; mismatch polynomials up to degree 3')
OUTSIDE = ('the view factors and the lit ground fraction (decided by P23) and, in ants2d, the projected sun angle and the row shading (decided by P22) '
           'are uninterpreted functions of all their arguments; more segments or time stamps; the Perez models inside ants2d')
U = 'bifacial.utils'


def ufun(m, where, attr, drop=(), lo=0, hi=1):
    """replace a geometric helper by an uninterpreted function of its arguments (by name, with defaults), strip by strip"""
    fn = getattr(m.mod(where[0]), attr)
    sig = inspect.signature(inspect.unwrap(fn))

    def one(names, vals):
        for n, v in zip(names, vals):
            if v is None:
                return None
        return m.uf(attr + '|' + ','.join(names), *vals, lo=lo, hi=hi)

    def f(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        args = {n: v for n, v in b.arguments.items() if n not in drop and v is not None}
        shape, index = [], None
        for v in args.values():
            if isinstance(v, pd.Series):
                index = v.index
        args = {n: np.asarray(v, dtype=object if m.symbolic else float) if isinstance(v, pd.Series) else v for n, v in args.items()}
        arr = {n: v if isinstance(v, np.ndarray) else None for n, v in args.items()}
        # axes: strip of ground, strip of row, time
        ax = {}
        for n, v in args.items():
            if arr[n] is not None and arr[n].ndim:
                ax[n] = 'g' if n in ('g0', 'g1') else 'x' if n in ('x0', 'x1') else 't'
        use = [c for c in 'gxt' if c in ax.values()]
        size = {}
        for n, c in ax.items():
            size[c] = max(size.get(c, 1), arr[n].reshape(-1).shape[0])
        out = np.empty([size[c] for c in use], dtype=object)
        for ij in np.ndindex(*out.shape):
            pos = dict(zip(use, ij))
            vals = []
            for n, v in args.items():
                if n in ax:
                    w = arr[n].reshape(-1)
                    v = w[pos[ax[n]] if len(w) > 1 else 0]
                elif arr[n] is not None:
                    v = m.item(v)
                vals.append(v)
            out[ij] = one(list(args), vals)
        if not use:
            return out[()]
        r = m.arr(list(out.reshape(-1))).reshape(out.shape)
        return pd.Series(list(out.reshape(-1)), index=index) if index is not None and use == ['t'] else r
    f.__signature__ = sig
    f.__name__ = attr
    for w in where:
        if hasattr(m.mod(w), attr):
            m.stub(w, attr, f)
    return f


def factors(m):
    v = dict(rs=ufun(m, [U], 'vf_row_sky_2d_integ'),
             rg=ufun(m, [U], 'vf_row_ground_2d_integ', drop=('max_rows',)),
             gs=ufun(m, [U], 'vf_ground_sky_2d_integ', drop=('npoints', 'vectorize')),
             lit=ufun(m, [U], '_unshaded_ground_fraction', drop=('max_zenith', 'max_rows')))
    return v


def sun(m, kind='scalar'):
    return m.real('zen', 0, 85), m.real('az', 0, 360), m.real('tilt', 0, 180), m.real('saz', 0, 360)


def site(m):
    return dict(gcr=m.real('gcr', 0.05, 0.95), height=m.real('height', 0.3, 5), pitch=m.real('pitch', 0.8, 20))


def irr(m):
    dhi = m.real('dhi', 0, 800)
    return dict(ghi=dhi + m.real('bhi', 0, 1200), dhi=dhi, dni=m.real('dni', 0, 1400), albedo=m.real('albedo', 0, 1))


def wrap(m, kind, v):
    if kind == 'scalar':
        return v
    if kind == 'array':
        return m.arr([v])
    return pd.Series([v], index=[3])


def first(m, kind, out, k):
    v = out[k]
    return v.loc[3] if isinstance(v, pd.Series) else m.item(v)


def cosinc(m, zen, az, tilt, saz):
    return m.cosd(tilt) * m.cosd(zen) + m.sind(tilt) * m.sind(zen) * m.cosd(az - saz)


def shade(m, kind):
    """shaded part of a row, from the line through the upper edge of the row in front"""
    zen, az, tilt, saz = m.real('zen', 0, 89), m.real('az', 0, 360), m.real('tilt', 0, 180), m.real('saz', 0, 360)
    gcr = m.real('gcr', 0.05, 0.95)
    factors(m)
    k = dict(ghi=wrap(m, kind, 900.0), dhi=wrap(m, kind, 100.0), dni=wrap(m, kind, 800.0))
    r = m.pv.bifacial.infinite_sheds.get_irradiance_poa(wrap(m, kind, tilt), saz, wrap(m, kind, zen), wrap(m, kind, az), gcr, 1.0, 3.0,
                                                        albedo=0.2, **k)
    f = first(m, kind, r, 'shaded_fraction')
    m.obs('f', f)
    tanphi = m.cosd(az - saz) * m.sind(zen) / m.cosd(zen)
    x = gcr * (m.sind(tilt) * tanphi + m.cosd(tilt))
    behind = not cosinc(m, zen, az, tilt, saz) > 0
    if not x > 1:
        m.eq('no shade where the rows leave a gap for the beam', f, 0)
    elif behind:
        m.eq('nothing else is lit from behind', f, 1)
    else:
        m.eq('the strip the gap does not cover', f, 1 - 1 / x)


def circumsolar(m, dhi, dni, ext, zen, az):
    """the circumsolar part of the diffuse light (as the transposition model P03 has it) becomes beam"""
    f = lambda t, a: m.item(m.pv.irradiance.haydavies(t, a, dhi, dni, ext, zen, az, return_components=True)['poa_circumsolar'])
    return dhi - f(0, 180), dni + f(zen, az)


def poa(m, kind, model):
    zen, az, tilt, saz = sun(m)
    v, s, e = factors(m), site(m), irr(m)
    iam = m.real('iam', 0, 1)
    k = {}
    if model == 'haydavies':
        ext = m.real('extra', 1300, 1450)
        k = dict(model=model, dni_extra=wrap(m, kind, ext))
        m.assume(e['dni'] <= ext)
    I = m.pv.bifacial.infinite_sheds
    a = {n: wrap(m, kind, x) if n != 'albedo' else x for n, x in e.items()}
    r = I.get_irradiance_poa(wrap(m, kind, tilt), wrap(m, kind, saz), wrap(m, kind, zen), wrap(m, kind, az), iam=iam, **s, **a, **k)
    o = {n: first(m, kind, r, n) for n in ('poa_global', 'poa_direct', 'poa_diffuse', 'poa_ground_diffuse', 'poa_sky_diffuse', 'shaded_fraction')}
    if kind == 'series':
        m.true('frame', isinstance(r, pd.DataFrame) and list(r.index) == [3] and set(r.columns) == set(o))
    for n, x in o.items():
        m.obs(n, x)
    dhi, dni = e['dhi'], e['dni']
    if model == 'haydavies':
        dhi, dni = circumsolar(m, dhi, dni, ext, zen, az)
    tp = m.cosd(az - saz) * m.sind(zen) / m.cosd(zen)
    phi = m.np.degrees(m.np.arctan(m.cosd(az - saz) * m.np.tan(m.np.radians(zen))))
    rows = m.np.ceil(s['height'] / (s['pitch'] * m.np.tan(m.np.radians(5))))
    gcr = s['gcr']
    sky = dhi * m.item(v['rs'](tilt, gcr, x0=0.0, x1=1.0))
    lit = m.item(v['lit'](tilt, phi, gcr))
    gs = m.item(v['gs'](tilt, gcr, s['height'], s['pitch'], g0=0, g1=1, max_rows=rows))
    gnd = e['albedo'] * (lit * (e['ghi'] - dhi) + gs * dhi) * m.item(v['rg'](tilt, gcr, x0=0.0, x1=1.0, g0=0.0, g1=1.0))
    m.eq('sky diffuse is the visible share of the sky', o['poa_sky_diffuse'], sky)
    m.eq('ground diffuse is the visible share of the lit and shaded ground', o['poa_ground_diffuse'], gnd)
    c = cosinc(m, zen, az, tilt, saz)
    m.eq('beam on the lit part', o['poa_direct'], m.np.maximum(dni * c, 0) * (1 - o['shaded_fraction']) * iam)
    m.eq('diffuse adds up', o['poa_diffuse'], o['poa_sky_diffuse'] + o['poa_ground_diffuse'])
    m.eq('total adds up', o['poa_global'], o['poa_direct'] + o['poa_diffuse'])
    for n in ('poa_sky_diffuse', 'poa_ground_diffuse'):
        m.ge(n, o[n], 0)


def faces(m, kind, model):
    """the bifacial result is the result of each face, under its own name"""
    zen, az, tilt, saz = sun(m)
    factors(m)
    s, e = site(m), irr(m)
    k = {}
    if model == 'haydavies':
        k = dict(model=model, dni_extra=wrap(m, kind, m.real('extra', 1300, 1450)))
    I = m.pv.bifacial.infinite_sheds
    a = {n: wrap(m, kind, x) if n != 'albedo' else x for n, x in e.items()}
    pos = (wrap(m, kind, zen), wrap(m, kind, az))
    fi, bi, bif, sf, tf = m.real('iam_f', 0, 1), m.real('iam_b', 0, 1), m.real('bif', 0, 1), m.real('shadef', -1, 0), m.real('trans', 0, 1)
    r = I.get_irradiance(wrap(m, kind, tilt), wrap(m, kind, saz), *pos, iam_front=fi, iam_back=bi, bifaciality=bif, shade_factor=sf,
                         transmission_factor=tf, **s, **a, **k)
    F = I.get_irradiance_poa(wrap(m, kind, tilt), wrap(m, kind, saz), *pos, iam=fi, **s, **a, **k)
    B = I.get_irradiance_poa(wrap(m, kind, 180 - tilt), wrap(m, kind, (saz + 180) % 360), *pos, iam=bi, **s, **a, **k)
    g = lambda o, n: first(m, kind, o, n)
    for side, X in (('front', F), ('back', B)):
        m.eq(side + ' total', g(r, 'poa_' + side), g(X, 'poa_global'))
        for n in ('direct', 'diffuse', 'ground_diffuse', 'sky_diffuse'):
            m.eq(side + ' ' + n, g(r, 'poa_%s_%s' % (side, n)), g(X, 'poa_' + n))
        m.eq(side + ' shaded', g(r, 'shaded_fraction_' + side), g(X, 'shaded_fraction'))
    m.eq('global', g(r, 'poa_global'), g(F, 'poa_global') + g(B, 'poa_global') * bif * (1 + sf) * (1 + tf))
    m.obs('global', g(r, 'poa_global'))
    if kind == 'series':
        m.true('frame', isinstance(r, pd.DataFrame) and list(r.index) == [3])


def defaults(m):
    zen, az, tilt, saz = sun(m)
    factors(m)
    s, e = site(m), irr(m)
    I = m.pv.bifacial.infinite_sheds
    r = I.get_irradiance(tilt, saz, zen, az, **s, **e)
    m.eq('default factors', m.item(r['poa_global']), m.item(r['poa_front']) + m.item(r['poa_back']) * 0.8 * 0.98)
    m.raises('haydavies needs extraterrestrial', ValueError, I.get_irradiance, tilt, saz, zen, az, model='haydavies', **s, **e)
    m.raises('haydavies needs extraterrestrial (one face)', ValueError, I.get_irradiance_poa, tilt, saz, zen, az, model='haydavies', **s, **e)


ANTS = 'bifacial.ants2d'


def ants_leaves(m):
    v = factors(m)
    v['sh'] = ufun(m, ['shading', ANTS], 'shaded_fraction1d')
    v['phi'] = ufun(m, ['shading', ANTS], 'projected_solar_zenith_angle', lo=-180, hi=180)
    return v


def wrap180(m, x):
    return (x + 180) % 360 - 180


def ants_sun(m, model, n):
    zen, az, rot = m.reals('zen', n, 0, 85), m.reals('az', n, 0, 360), m.reals('rot', n, -90, 90)
    dhi, bhi, dni, alb = m.reals('dhi', n, 0, 800), m.reals('bhi', n, 0, 1200), m.reals('dni', n, 0, 1400), m.reals('alb', n, 0, 1)
    ghi = [d + b for d, b in zip(dhi, bhi)]
    return zen, az, rot, dhi, ghi, dni, alb


def shares(m, v, rot, phi, gcr, x0, x1):
    """part of the strip x0..x1 that lies in the shade of the next row, which starts at the lower end"""
    f = m.item(v['sh'](phi, 90, 0, rot, collector_width=1, pitch=1 / gcr))
    if rot < 0:
        x0, x1 = 1 - x1, 1 - x0
    return m.np.clip((f - x0) / (x1 - x0), 0, 1)


def ants(m, kind, model, rs, gsn, n=1, slope=None):
    zen, az, rot, dhi, ghi, dni, alb = ants_sun(m, model, n)
    v, s = ants_leaves(m), site(m)
    aaz = m.real('aaz', 0, 360)
    k = dict(model=model, row_segments=rs, ground_segments=gsn, max_rows=5)
    at = cs = 0
    if slope == 'cross':
        cs = m.real('cs', -30, 30)
        m.assume(cs != 0)
        k['cross_axis_slope'] = cs
    elif slope == 'axis':
        at = m.real('at', 0.5, 30)
        k['axis_tilt'] = at
    if kind == 'scalar':
        w = lambda x: x[0]
    elif kind == 'array':
        w = lambda x: m.arr(x)
    else:
        w = lambda x: pd.Series(x, index=range(5, 5 + n), dtype=object if m.symbolic else float)
    ext = None
    if model == 'haydavies':
        ext = m.reals('extra', n, 1300, 1450)
        k['dni_extra'] = w(ext)
        for a, b in zip(dni, ext):
            m.assume(a <= b)
    r, gr = m.pv.bifacial.ants2d.get_irradiance(w(rot), aaz, w(zen), w(az), s['gcr'], s['height'], s['pitch'], w(ghi), w(dhi), w(dni), w(alb),
                                                return_ground_components=True, **k)
    get = lambda name, i, t: np.asarray(r[name], dtype=object).reshape(rs, n)[i, t]
    gget = lambda name, i, t: np.asarray(gr[name], dtype=object).reshape(gsn, n)[i, t]
    if kind == 'series' and rs == 1:
        m.true('frame', isinstance(r, pd.DataFrame) and list(r.index) == list(range(5, 5 + n)))
    if kind == 'scalar' and rs == 1:
        m.true('scalars', all(not hasattr(x, 'shape') or np.shape(x) == () for x in r.values()))
    H, P, G = s['height'], s['pitch'], s['gcr']
    for t in range(n):
        D, B, gh = dhi[t], dni[t], ghi[t]
        if model == 'haydavies':
            D, B = circumsolar(m, D, B, ext[t], zen[t], az[t])
        R = rot[t]
        if slope == 'cross':
            P, G = s['pitch'] / m.cosd(cs), s['gcr'] * m.cosd(cs)
            R = wrap180(m, R - cs)
        if slope:
            # ground parallel to the rows: vertical clearance and beam are taken along its normal
            st = m.np.degrees(m.np.arccos(m.cosd(at) * m.cosd(cs)))
            H = s['height'] * m.cosd(st)
            down = aaz + m.np.degrees(m.np.arctan2(m.sind(cs), m.cosd(cs) * m.sind(at)))
            gh = D + B * m.np.maximum(m.item(m.pv.irradiance.aoi_projection(st, down, zen[t], az[t])), 0)
        phi = m.item(v['phi'](zen[t], az[t], at, aaz)) - cs
        gtot = []
        for j in range(gsn):
            g0, g1 = j / gsn, (j + 1) / gsn
            lit = m.item(v['lit'](R, phi, G, pitch=P, height=H, g0=m.np.float64(g0), g1=m.np.float64(g1)))
            vs = m.item(v['gs'](R, G, H, P, g0=m.np.float64(g0), g1=m.np.float64(g1), max_rows=5))
            m.eq('beam on the ground', gget('ground_direct', j, t), lit * (gh - D))
            m.eq('diffuse on the ground', gget('ground_diffuse', j, t), vs * D)
            gtot.append(gget('ground_direct', j, t) + gget('ground_diffuse', j, t))
        for side in ('front', 'back'):
            Rs = R if side == 'front' else wrap180(m, R + 180)
            # the face lies opposite in space; its own rotation is about the tilted axis, not along the slope
            tr = rot[t] if side == 'front' else wrap180(m, rot[t] + 180)
            face = m.pv.tracking.calc_surface_orientation(tr, at, aaz)
            c = m.item(m.pv.irradiance.aoi_projection(m.item(face['surface_tilt']), m.item(face['surface_azimuth']), zen[t], az[t]))
            for i in range(rs):
                x0, x1 = i / rs, (i + 1) / rs
                if side == 'back':
                    # segments of the back are numbered like those of the front
                    x0, x1 = 1 - x1, 1 - x0
                f = shares(m, v, Rs, phi, G, x0, x1)
                q = lambda nm: get('poa_%s_%s' % (side, nm), i, t)
                m.obs('%s %d %d' % (side, i, t), get('poa_' + side, i, t))
                m.eq(side + ' shaded part', get('shaded_fraction_' + side, i, t), f)
                m.eq(side + ' beam', q('direct'), B * m.np.maximum(c, 0) * (1 - f))
                sky = m.item(v['rs'](Rs, G, m.np.float64(x0), m.np.float64(x1)))
                m.eq(side + ' sky', q('sky_diffuse'), sky * D)
                gnd = 0
                for j in range(gsn):
                    vg = m.item(v['rg'](Rs, G, H, P, x0=m.np.float64(x0), x1=m.np.float64(x1), g0=m.np.float64(j / gsn), g1=m.np.float64((j + 1) / gsn)))
                    gnd = gnd + vg * alb[t] * gtot[j]
                m.eq(side + ' ground', q('ground_diffuse'), gnd)
                m.eq(side + ' diffuse adds up', q('diffuse'), q('sky_diffuse') + q('ground_diffuse'))
                m.eq(side + ' total adds up', get('poa_' + side, i, t), q('direct') + q('diffuse'))
                for nm in ('sky_diffuse', 'ground_diffuse'):
                    if not (slope and nm == 'ground_diffuse'):
                        m.ge('%s %s' % (side, nm), q(nm), 0)


def mismatch(m, kind, form):
    x = m.real('rmad', 0, 1)
    c = [m.real('c%d' % i, -5, 5) for i in range(4)]
    f = m.pv.bifacial.loss_models.power_mismatch_deline
    k = {}
    scale = 1
    if form == 'default':
        c = [0, 0.142, 0.032 * 100, 0]
    else:
        k['coefficients'] = tuple(c)
        k['fill_factor'] = m.real('ff', 0.4, 1)
        scale = k['fill_factor'] / 0.79
        if form == 'reference':
            k['fill_factor_reference'] = m.real('ffr', 0.4, 1)
            scale = k['fill_factor'] / k['fill_factor_reference']
    if kind == 'series':
        r = f(pd.Series([x, 0.25], index=[7, 9]), **k)
        m.true('index', isinstance(r, pd.Series) and list(r.index) == [7, 9])
        v = r.loc[7]
    else:
        v = m.item(f(wrap(m, kind, x), **k))
    m.eq('polynomial', v, (c[0] + c[1] * x + c[2] * x**2 + c[3] * x**3) * scale)


def jobs(tier):
    for k in ('scalar', 'array', 'series'):
        yield Job('sheds shading ' + k, shade, params=dict(kind=k))
        for md in ('isotropic', 'haydavies'):
            yield Job('sheds one face, %s, %s' % (md, k), poa, params=dict(kind=k, model=md), merge=True)
            yield Job('sheds both faces, %s, %s' % (md, k), faces, params=dict(kind=k, model=md), merge=True)
        for fm in ('default', 'factor', 'reference'):
            yield Job('mismatch %s %s' % (fm, k), mismatch, params=dict(kind=k, form=fm))
    yield Job('sheds defaults', defaults, merge=True)
    for k, md, rs, gsn, n, sl in (
            ('scalar', 'isotropic', 1, 1, 1, None), ('scalar', 'haydavies', 1, 2, 1, None), ('array', 'isotropic', 2, 1, 2, None),
            ('array', 'isotropic', 1, 2, 2, None), ('series', 'haydavies', 1, 2, 2, None), ('series', 'isotropic', 2, 2, 1, None),
            ('scalar', 'isotropic', 1, 1, 1, 'cross'), ('scalar', 'isotropic', 1, 1, 1, 'axis'), ('scalar', 'isotropic', 2, 1, 1, 'cross'),
            ('array', 'isotropic', 1, 1, 1, 'axis')):
        yield Job('segments %s %s %d %d %d %s' % (k, md, rs, gsn, n, sl), ants, params=dict(kind=k, model=md, rs=rs, gsn=gsn, n=n, slope=sl), merge=True)
