import inspect
import types
import numpy as np
import pandas as pd
from pvsym.cli import Job
from props.p19_modelchain import leaf
PROPERTY = 'P27'
FUNCTIONS = ['location.Location.' + f for f in ('__init__', 'tz', 'from_tmy', 'from_epw', 'get_solarposition', 'get_clearsky', 'get_airmass',
                                                'get_sun_rise_set_transit')] + [
    'location.lookup_altitude', 'tools._degrees_to_index', 'clearsky.lookup_linke_turbidity', 'solarposition.get_solarposition',
    'solarposition.spa_c', 'solarposition.spa_python']
BOUNDS = ('every latitude in [-95, 95] and longitude in [-185, 185] (one symbolic number each); every altitude in [-450, 8000] m, pressure, temperature; '
          'series of 2 time stamps; all clear-sky, airmass, solar position and sunrise methods; optional arguments present or absent')
OUTSIDE = ('the models a location calls (decided by P05, P07, P25, P28, P29, P31) are uninterpreted functions of all their arguments; the table '
           'files themselves; time zone names')
TIMES = pd.DatetimeIndex(['2021-06-01 12:00', '2021-06-01 13:00'], tz='Etc/GMT+7')


def index(m, coord):
    lat = coord == 'latitude'
    n, lim = (2160, 90) if lat else (4320, 180)
    x = m.real('x', -lim - 5, lim + 5)
    f = m.pv.tools._degrees_to_index
    # centre of cell i; the first latitude cell is the northern one
    pos = (90 - x) * 12 if lat else (x + 180) * 12
    if pos < -1e-5 or pos > n + 1e-5:
        m.raises('outside the grid', ValueError, f, x, coord)
        return
    m.assume(pos >= 0)
    m.assume(pos <= n)
    i = f(x, coord)
    m.obs('i', i)
    m.between('within the table', i, 0, n - 1, tol=0)
    m.between('nearest cell', pos - 0.5 - i, -0.5, 0.5, tol=1e-6)
    m.eq('whole', i, m.np.floor(i + 0.25))


def index_errors(m):
    m.raises('coordinate', ValueError, m.pv.tools._degrees_to_index, m.real('x', 0, 1), 'height')


def fake_h5(m, where, name, cell, seen):
    class Table:
        def __getitem__(self, ij):
            seen.append(ij)
            return cell

    class File:
        def __init__(self, path, mode='r'):
            seen.append(str(path))

        def __enter__(self):
            return {name: Table()}

        def __exit__(self, *a):
            return None
    m.stub(where, 'h5py', types.SimpleNamespace(File=File))


def degrees(m):
    """the lookup as an uninterpreted function of the coordinate"""
    f = lambda d, coordinate: m.uf('index|' + coordinate, d, lo=0, hi=4319)
    for w in ('tools', 'clearsky', 'location'):
        if hasattr(m.mod(w), '_degrees_to_index'):
            m.stub(w, '_degrees_to_index', f)
    return f


def altitude(m):
    lat, lon = m.real('lat', -90, 90), m.real('lon', -180, 180)
    cell = m.real('cell', 0, 255)
    seen = []
    f = degrees(m)
    fake_h5(m, 'location', 'Altitude', cell, seen)
    v = m.pv.location.lookup_altitude(lat, lon)
    m.obs('v', v)
    m.eq('value', v, 0 if cell == 255 else cell * 28 - 450)
    m.eq('row', seen[-1][0], f(lat, coordinate='latitude'))
    m.eq('column', seen[-1][1], f(lon, coordinate='longitude'))
    m.true('file', seen[0].endswith('Altitude.h5'))
    loc = m.pv.location.Location(lat, lon)
    m.eq('default altitude', loc.altitude, v)
    m.eq('given altitude', m.pv.location.Location(lat, lon, altitude=cell).altitude, cell)
    m.eq('sea level is not missing', m.pv.location.Location(lat, lon, altitude=0).altitude, 0)


def turbidity(m):
    lat, lon = m.real('lat', -90, 90), m.real('lon', -180, 180)
    seen = []
    f = degrees(m)
    fake_h5(m, 'clearsky', 'LinkeTurbidity', np.full(12, 60.0), seen)
    m.pv.clearsky.lookup_linke_turbidity(TIMES, lat, lon)
    m.eq('row', seen[-1][0], f(lat, coordinate='latitude'))
    m.eq('column', seen[-1][1], f(lon, coordinate='longitude'))
    m.true('file', seen[0].endswith('LinkeTurbidities.h5'))


SP = ['apparent_zenith', 'zenith', 'apparent_elevation', 'elevation', 'azimuth']


def frame(m, attr, outs, names, args):
    return pd.DataFrame({o: pd.Series([m.uf('|'.join([attr, o, str(i)] + names), *args) for i in range(2)], index=TIMES,
                                      dtype=object if m.symbolic else float) for o in outs})


def recorder(m, where, attr, make):
    sig = inspect.signature(getattr(m.mod(where), attr))
    calls = []

    def f(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        calls.append(dict(b.arguments))
        return make(calls[-1])
    f.__signature__ = sig
    m.stub(where, attr, f)
    return calls


def site(m):
    lat, lon, alt = m.real('lat', -90, 90), m.real('lon', -180, 180), m.real('alt', -450, 8000)
    return lat, lon, alt, m.pv.location.Location(lat, lon, tz='Etc/GMT+7', altitude=alt, name='x')


def position(m):
    """a frame which depends on the coordinates the location passes"""
    def make(a):
        m.true('times', a['time'] is TIMES)
        return frame(m, 'pos', SP, [a['method']], [a['latitude'], a['longitude'], a['altitude'], a['pressure'], a['temperature']])
    return recorder(m, 'solarposition', 'get_solarposition', make)


def solpos(m, pressure, temperature, extra):
    lat, lon, alt, loc = site(m)
    calls = position(m)
    k = {}
    p, t = m.pv.atmosphere.alt2pres(alt), 12
    if pressure:
        p = k['pressure'] = m.real('p', 50000, 110000)
    if temperature:
        t = k['temperature'] = m.real('t', -40, 50)
    if extra:
        k['method'] = 'ephemeris'
    loc.get_solarposition(TIMES, **k)
    c = calls[-1]
    for n, v in (('latitude', lat), ('longitude', lon), ('altitude', alt), ('pressure', p), ('temperature', t)):
        m.eq(n, c[n], v)
    m.true('method', c['method'] == ('ephemeris' if extra else 'nrel_numpy'))


def leaves(m):
    leaf(m, 'clearsky', 'lookup_linke_turbidity', ['tl'])
    leaf(m, 'clearsky', 'ineichen', ['ghi', 'dni', 'dhi'], 'frame')
    leaf(m, 'clearsky', 'haurwitz', ['ghi'], 'frame')
    leaf(m, 'clearsky', 'simplified_solis', ['ghi', 'dni', 'dhi'], 'frame')
    leaf(m, 'atmosphere', 'get_relative_airmass', ['am'])
    leaf(m, 'atmosphere', 'get_absolute_airmass', ['am'])
    leaf(m, 'atmosphere', 'alt2pres', ['p'])


def series(m, name):
    return pd.Series(m.reals(name, 2, 1, 100), index=TIMES, dtype=object if m.symbolic else float)


def same(m, label, a, b):
    m.true(label + ' columns', list(a.columns) == list(b.columns) and list(a.index) == list(b.index))
    for c in b.columns:
        for t in b.index:
            m.eq('%s %s' % (label, c), a.loc[t, c], b.loc[t, c])


def airmass(m, model, given):
    lat, lon, alt, loc = site(m)
    calls = position(m)
    leaves(m)
    A = m.pv.atmosphere
    k = {} if model == 'default' else dict(model=model)
    nm = 'kastenyoung1989' if model == 'default' else model
    if given:
        pos = frame(m, 'given', SP, [], [m.real('seed', 0, 1)])
        r = loc.get_airmass(solar_position=pos, **k)
        m.true('position not recomputed', not calls)
    else:
        r = loc.get_airmass(TIMES, **k)
        pos = frame(m, 'pos', SP, ['nrel_numpy'], [lat, lon, alt, A.alt2pres(alt), 12])
    apparent = nm in ('simple', 'kasten1966', 'kastenyoung1989', 'gueymard1993', 'pickering2002', 'gueymard2003')
    rel = A.get_relative_airmass(pos['apparent_zenith' if apparent else 'zenith'], nm)
    e = pd.DataFrame({'airmass_relative': rel, 'airmass_absolute': A.get_absolute_airmass(rel, A.alt2pres(alt))})
    same(m, 'airmass', r, e)


def errors(m):
    lat, lon, alt, loc = site(m)
    position(m)
    leaves(m)
    m.raises('airmass model', ValueError, loc.get_airmass, TIMES, model='other')
    m.raises('clear-sky model', ValueError, loc.get_clearsky, TIMES, model='other')
    m.raises('sunrise method', ValueError, loc.get_sun_rise_set_transit, TIMES, method='other')
    m.raises('solar position method', ValueError, m.pv.solarposition.spa_python, TIMES, lat, lon, how='other')


def clear(m, model, pos_given, extra_given, pres_given, tl_given, am_given):
    lat, lon, alt, loc = site(m)
    calls = position(m)
    leaves(m)
    A, C = m.pv.atmosphere, m.pv.clearsky
    k = {} if model == 'default' else dict(model=model)
    kind = 'ineichen' if model == 'default' else model
    p = A.alt2pres(alt)
    if pres_given:
        p = k['pressure'] = m.real('p', 50000, 110000)
    extra = m.pv.irradiance.get_extra_radiation(TIMES)
    if extra_given:
        extra = k['dni_extra'] = series(m, 'extra')
    if pos_given:
        pos = k['solar_position'] = frame(m, 'given', SP, [], [m.real('seed', 0, 1)])
    else:
        pos = frame(m, 'pos', SP, ['nrel_numpy'], [lat, lon, alt, p, 12])
    if kind == 'ineichen':
        if tl_given:
            tl = k['linke_turbidity'] = series(m, 'tl')
        elif tl_given is None:
            k['interp_turbidity'] = False
            tl = C.lookup_linke_turbidity(TIMES, lat, lon, interp_turbidity=False)
        else:
            tl = C.lookup_linke_turbidity(TIMES, lat, lon, interp_turbidity=True)
        if am_given:
            am = k['airmass_absolute'] = series(m, 'am')
        else:
            am = A.get_absolute_airmass(A.get_relative_airmass(pos['apparent_zenith'], 'kastenyoung1989'), A.alt2pres(alt))
        k['perez_enhancement'] = True
        e = C.ineichen(pos['apparent_zenith'], am, tl, altitude=alt, dni_extra=extra, perez_enhancement=True)
    elif kind == 'haurwitz':
        e = C.haurwitz(pos['apparent_zenith'])
    else:
        k['aod700'] = m.real('aod', 0, 0.4)
        e = C.simplified_solis(pos['apparent_elevation'], pressure=p, dni_extra=extra, aod700=k['aod700'])
    r = loc.get_clearsky(TIMES, **k)
    same(m, 'clear sky', r, e)


def riseset(m, method):
    lat, lon, alt, loc = site(m)
    cols = {c: pd.Series(m.reals(c, 2, 0, 24), index=TIMES, dtype=object if m.symbolic else float) for c in ('sunrise', 'sunset', 'transit')}
    fn = {'pyephem': 'sun_rise_set_transit_ephem', 'spa': 'sun_rise_set_transit_spa', 'geometric': 'sun_rise_set_transit_geometric'}[method]
    make = (lambda a: tuple(cols[c].array for c in ('sunrise', 'sunset', 'transit'))) if method == 'geometric' else (lambda a: pd.DataFrame(cols))
    calls = recorder(m, 'solarposition', fn, make)
    k = {}
    if method == 'geometric':
        k = dict(declination=m.real('dec', -0.4, 0.4), equation_of_time=m.real('eot', -17, 17))
    elif method == 'spa':
        k = dict(delta_t=m.real('dt', 60, 70))
    r = loc.get_sun_rise_set_transit(TIMES, **(dict(method=method) if method != 'spa' else {}), **k)
    c = calls[-1]
    m.eq('latitude', c['latitude'], lat)
    m.eq('longitude', c['longitude'], lon)
    m.true('times', c['times'] is TIMES)
    for n, v in k.items():
        m.eq(n, c[n], v)
    for n in cols:
        for t in TIMES:
            m.eq(n, r.loc[t, n], cols[n].loc[t])


def dispatch(m, method, given):
    """every method gets the same site, pressure, altitude and temperature"""
    lat, lon, T = m.real('lat', -90, 90), m.real('lon', -180, 180), m.real('t', -40, 50)
    S, A = m.pv.solarposition, m.pv.atmosphere
    k, alt, p = {}, None, None
    if 'a' in given:
        alt = k['altitude'] = m.real('alt', -450, 8000)
    if 'p' in given:
        p = k['pressure'] = m.real('p', 50000, 110000)
    fn = {'nrel_c': 'spa_c', 'nrel_numba': 'spa_python', 'nrel_numpy': 'spa_python', 'pyephem': 'pyephem', 'ephemeris': 'ephemeris'}[method.lower()]
    calls = recorder(m, 'solarposition', fn, lambda a: frame(m, 'pos', SP, [], [a['latitude']]))
    if 't' in given:
        k['temperature'] = T
    else:
        T = 12
    S.get_solarposition(TIMES, lat, lon, method=method, **k)
    c = calls[-1]
    if alt is None and p is None:
        alt, p = 0.0, 101325.0
    elif alt is None:
        alt = A.pres2alt(p)
    elif p is None:
        p = A.alt2pres(alt)
    m.eq('latitude', c['latitude'], lat)
    m.eq('longitude', c['longitude'], lon)
    m.eq('pressure', c['pressure'], p)
    m.eq('temperature', c['temperature'], T)
    if fn != 'ephemeris':
        m.eq('altitude', c['altitude'], alt)
    if fn == 'spa_python':
        m.true('how', c['how'] == method[5:].lower())
    m.true('times', c['time'] is TIMES)


def method_errors(m):
    m.raises('method', ValueError, m.pv.solarposition.get_solarposition, TIMES, m.real('lat', -90, 90), m.real('lon', -180, 180), method='other')


def python(m, default):
    """the numpy SPA gets hPa, the site and UTC seconds; results go under their names"""
    lat, lon, alt, p, T = m.real('lat', -90, 90), m.real('lon', -180, 180), m.real('alt', -450, 8000), m.real('p', 5e4, 1.1e5), m.real('t', -40, 50)
    names = ['apparent_zenith', 'zenith', 'apparent_elevation', 'elevation', 'azimuth', 'equation_of_time']
    out = [m.arr(m.reals(n, 2, 0, 100)) for n in names]
    calls = recorder(m, 'spa', 'solar_position', lambda a: tuple(out))
    k = {} if default else dict(delta_t=m.real('dt', 60, 70), atmos_refract=m.real('ar', 0.1, 1))
    r = m.pv.solarposition.spa_python(TIMES, lat, lon, alt, p, T, **k)
    c = calls[-1]
    m.true('seconds', [float(x) for x in c['unixtime']] == [t.timestamp() for t in TIMES])
    for n, v in (('lat', lat), ('lon', lon), ('elev', alt), ('temp', T), ('delta_t', k.get('delta_t', 67.0)),
                 ('atmos_refract', k.get('atmos_refract', 0.5667))):
        m.eq(n, c[n], v)
    m.eq('hPa', c['pressure'] * 100, p)
    for n, v in zip(names, out):
        for i, t in enumerate(TIMES):
            m.eq(n, r.loc[t, n], v[i])


def files(m, kind):
    lat, lon, alt = m.real('lat', -90, 90), m.real('lon', -180, 180), m.real('alt', -450, 8000)
    L, data = m.pv.location.Location, pd.DataFrame({'ghi': [1.0]})
    meta = dict(latitude=lat, longitude=lon, altitude=alt, TZ=m.choice('tz', [-7, 0, 5]))
    if kind == 'epw':
        loc = L.from_epw(dict(meta, city='here'), data)
    else:
        loc = L.from_tmy(dict(meta, **{'City' if kind == 'tmy2' else 'Name': 'here'}), data)
    m.eq('latitude', loc.latitude, lat)
    m.eq('longitude', loc.longitude, lon)
    m.eq('altitude', loc.altitude, alt)
    m.true('name', loc.name == 'here')
    m.true('offset', pd.Timestamp('2021-01-01', tz=loc.tz).utcoffset().total_seconds() == 3600 * meta['TZ'])
    m.true('weather', loc.weather is data)


def jobs(tier):
    for c in ('latitude', 'longitude'):
        yield Job('index ' + c, index, params=dict(coord=c))
    yield Job('index errors', index_errors)
    yield Job('altitude table', altitude)
    yield Job('turbidity table', turbidity)
    for p in (0, 1):
        for t in (0, 1):
            yield Job('solar position %d %d' % (p, t), solpos, params=dict(pressure=p, temperature=t, extra=p == t))
    for mod in ('default', 'simple', 'kasten1966', 'youngirvine1967', 'young1994', 'gueymard1993', 'pickering2002', 'gueymard2003'):
        yield Job('airmass ' + mod, airmass, params=dict(model=mod, given=mod in ('simple', 'young1994')))
    yield Job('errors', errors)
    for mod, combos in (('default', ['00000', '10000', '00100', '01010', '00001', '10n01', '111n1']), ('ineichen', ['000n0', '11111']),
                        ('haurwitz', ['00000', '10000', '00100']), ('simplified_solis', ['00000', '11100', '00100', '01000'])):
        for c in combos:
            v = [None if x == 'n' else x == '1' for x in c]
            yield Job('clear sky %s %s' % (mod, c), clear, params=dict(model=mod, pos_given=v[0], extra_given=v[1], pres_given=bool(v[2]),
                                                                       tl_given=v[3], am_given=v[4]))
    for md in ('spa', 'pyephem', 'geometric'):
        yield Job('sunrise ' + md, riseset, params=dict(method=md))
    for md in ('nrel_c', 'nrel_numba', 'nrel_numpy', 'NREL_numpy', 'pyephem', 'ephemeris'):
        for g in ('', 'a', 'p', 'apt', 't'):
            yield Job('method %s %s' % (md, g), dispatch, params=dict(method=md, given=g))
    yield Job('method errors', method_errors)
    for d in (True, False):
        yield Job('numpy SPA %s' % d, python, params=dict(default=d))
    for k in ('tmy2', 'tmy3', 'epw'):
        yield Job('file ' + k, files, params=dict(kind=k))
