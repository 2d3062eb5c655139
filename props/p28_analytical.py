import calendar
import datetime
import types
import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P28'
FUNCTIONS = ['solarposition.' + f for f in ('_calculate_simple_day_angle', 'equation_of_time_spencer71', 'equation_of_time_pvcdrom', 'declination_spencer71',
                                            'declination_cooper69', 'solar_azimuth_analytical', 'solar_zenith_analytical', 'hour_angle',
                                            '_hour_angle_to_hours', '_local_times_from_hours_since_midnight', '_times_to_hours_after_local_midnight',
                                            'sun_rise_set_transit_geometric', 'ephemeris')] + [
    'irradiance.get_extra_radiation', 'irradiance._handle_extra_radiation_types', 'tools._pandas_to_doy', 'tools._pandas_to_utc', 'tools._doy_to_datetimeindex']
BOUNDS = ('latitude -90 to 90 degrees, longitude -180 to 180, hour angle -180 to 180, declination -30 to 30 (zenith: -90 to 90), equation of time -20 to 20 '
          'minutes, day of year a real number in 0 to 367, pressure 0 to 110 kPa, temperature -60 to 60 C: all real values; time stamps: the listed instants, '
          'in time zones with and without daylight saving, including the days of the clock change')
OUTSIDE = ('time stamps other than the listed ones; accuracy of the formulas against the real sun; inverse trigonometric functions are compared through their '
           'arguments')
ZONES = [('UTC', ['2019-03-01 00:00', '2019-12-31 23:59:59.5']), ('Etc/GMT+7', ['2015-01-02 07:21:55.2132', '2015-01-02 00:00']),
         ('Asia/Kolkata', ['2020-02-29 05:29', '2020-02-29 05:31']), ('America/New_York', ['2015-03-08 01:30', '2015-03-08 12:00', '2015-03-08 23:59']),
         ('America/New_York', ['2015-11-01 00:30', '2015-11-01 12:00', '2015-07-04 19:59', '2015-07-04 20:01']),
         ('Australia/Sydney', ['2015-10-04 01:00', '2015-10-04 12:00', '2016-04-03 22:00']), ('Pacific/Auckland', ['2020-06-30 13:00', '2021-01-01 00:00'])]


def zenith(m):
    """spherical law of cosines"""
    lat, ha, dec = m.real('lat', -90, 90), m.real('ha', -180, 180), m.real('dec', -90, 90)
    cz = m.cosd(dec) * m.cosd(lat) * m.cosd(ha) + m.sind(dec) * m.sind(lat)
    R = m.np.radians
    z = m.pv.solarposition.solar_zenith_analytical(R(lat), R(ha), R(dec))
    m.assume(cz <= 1)
    m.assume(cz >= -1)
    m.eq('law of cosines', m.np.cos(z), cz)
    m.between('range', z, 0, 3.14159265358979324)
    m.obs('z', z)


def azimuth(m, sign, quad):
    """azimuth from the given zenith; east before noon, west after"""
    lat, dec, zen = m.real('lat', -89, 89), m.real('dec', -30, 30), m.real('zen', 1, 179)
    if quad != 'inside':
        # observer on the equator, sun due north or south
        lat, dec = 0.0, zen * (-1 if quad == 'one' else 1)
        m.assume(zen <= 30)
    ha = m.real('ha', 1e-6, 180) * sign if sign else 0.0
    R = m.np.radians
    c = (m.cosd(zen) * m.sind(lat) - m.sind(dec)) / (m.sind(zen) * m.cosd(lat))
    if quad == 'inside':
        m.assume(c < 0.99999)
        m.assume(c > -0.99999)
    a = m.pv.solarposition.solar_azimuth_analytical(R(lat), R(ha), R(dec), R(zen))
    m.obs('a', a)
    pi = 3.14159265358979324
    m.between('range', a, -1e-9, 2 * pi + 1e-9)
    if not sign:
        m.eq('noon', a, pi)
        return
    if quad == 'inside':
        # measured clockwise from north: the sun due north has cos(azimuth) = 1
        m.eq('cosine of azimuth', m.np.cos(a), -c)
        (m.ge if sign > 0 else m.le)('side', a, pi)
    else:
        m.eq('limit', a, pi if quad == 'one' else pi + sign * pi)


def azimuth_zenith(m, where):
    """sun overhead or observer at the pole: azimuth is south"""
    R = m.np.radians
    ha, dec = m.real('ha', 1, 180), m.real('dec', -30, 30)
    lat, zen = (90 if m.choice('s', [0, 1]) else -90, m.real('zen', 1, 179)) if where == 'pole' else (m.real('lat', -89, 89), 0)
    a = m.pv.solarposition.solar_azimuth_analytical(R(lat), R(ha), R(dec), R(zen))
    m.eq('south', a, 3.14159265358979324)


def days(m, container, offset):
    """days of the year, given by their angles in the year (degrees)"""
    b = m.reals('b', 2, -1, 362)
    d = [v * 73 / 72 + offset for v in b]
    x = {'scalar': d[0], 'array': m.arr(d), 'series': pd.Series(d, index=[4, 1])}[container]

    def elems(r):
        if container == 'scalar':
            return [(b[0], r)]
        if container == 'series' and isinstance(r, pd.Series):
            m.true('index', list(r.index) == [4, 1])
            return [(b[0], r.loc[4]), (b[1], r.loc[1])]
        return [(b[0], r[0]), (b[1], r[1])]
    return x, elems


def day(m, container, what):
    S = m.pv.solarposition
    C, N = m.cosd, m.sind
    x, elems = days(m, container, 81 if what == 'pvcdrom' else -284 if what == 'cooper' else 1)
    f = {'spencer': S.declination_spencer71, 'cooper': S.declination_cooper69, 'eot': S.equation_of_time_spencer71,
         'pvcdrom': S.equation_of_time_pvcdrom}[what]
    for b, r in elems(f(x)):
        m.obs('r', r)
        if what == 'spencer':
            m.eq('Spencer declination', r, 0.006918 - 0.399912 * C(b) + 0.070257 * N(b) - 0.006758 * C(2 * b) + 0.000907 * N(2 * b)
                 - 0.002697 * C(3 * b) + 0.00148 * N(3 * b))
            m.between('Spencer declination range', r, -0.5, 0.5)
        elif what == 'cooper':
            m.eq('Cooper declination', r, m.np.radians(23.45 * N(b)))
            m.between('Cooper declination range', r, -0.4093, 0.4093)
        elif what == 'eot':
            m.eq('Spencer equation of time', r * 2 * m.np.pi / 1440, 7.5e-6 + 0.001868 * C(b) - 0.032077 * N(b) - 0.014615 * C(2 * b)
                 - 0.040849 * N(2 * b))
            m.between('Spencer equation of time range', r * 2 * m.np.pi / 1440, -0.09, 0.09)
        else:
            m.eq('PVCDROM equation of time', r, 9.87 * N(2 * b) - 7.53 * C(b) - 1.5 * N(b))
            m.between('PVCDROM equation of time range', r, -19, 19)


def ratio(m, method, b):
    C, N = m.cosd, m.sind
    if method == 'asce':
        return 1 + 0.033 * C(b)
    return 1.00011 + 0.034221 * C(b) + 0.00128 * N(b) + 0.000719 * C(2 * b) + 7.7e-5 * N(2 * b)


def extra(m, method, container):
    G = m.pv.irradiance.get_extra_radiation
    k = m.real('k', 1300, 1400)
    name = 'spencer' if method == 'default' else method.lower()
    a = {} if method == 'default' else dict(method=method)
    x, elems = days(m, container, 0 if name == 'asce' else 1)
    r = G(x, solar_constant=k, **a)
    m.true('array', not isinstance(r, pd.Series))
    for b, e in elems(r):
        m.obs('e', e)
        m.eq('formula', e, k * ratio(m, name, b))
        m.between('bounds', e / k, 0.963, 1.037)
    for b, e in elems(G(x, **a)):
        m.eq('default constant', e, 1366.1 * ratio(m, name, b))


TIMES = pd.DatetimeIndex(['2019-01-01 23:30', '2020-02-29 12:00', '2020-12-31 19:30']).tz_localize('Etc/GMT+5')


def extra_times(m, method, kind):
    G = m.pv.irradiance.get_extra_radiation
    k = m.real('k', 1300, 1400)
    t = {'index': TIMES, 'stamp': TIMES[0], 'naive': TIMES.tz_localize(None), 'datetime': TIMES[1].to_pydatetime(), 'date': datetime.date(2020, 2, 29),
         'np': np.datetime64('2020-02-29T12:00')}[kind]
    r = G(t, solar_constant=k, method=method)
    # days are counted in UTC
    doy = {'index': [2, 60, 1], 'stamp': [2], 'naive': [1, 60, 366], 'datetime': [60], 'date': [60], 'np': [60]}[kind]
    if kind in ('index', 'naive'):
        m.true('series', isinstance(r, pd.Series) and list(r.index) == list(t))
        r = list(r)
    else:
        r = [r]
    m.true('length', len(r) == len(doy))
    for v, e in zip(doy, r):
        m.eq('formula', e, k * ratio(m, method, (v - (method == 'spencer')) * 360 / 365))


def extra_nrel(m, kind):
    """the square of the distance divides; day numbers are days of the epoch year"""
    k, r1, r2 = m.real('k', 1300, 1400), m.real('r1', 0.9, 1.1), m.real('r2', 0.9, 1.1)
    seen = []

    def dist(times, *a, **kw):
        seen.append((times, a, kw))
        return pd.Series([r1, r2][:len(times)], index=times)
    m.stub('solarposition', 'nrel_earthsun_distance', dist)
    m.stub('solarposition', 'pyephem_earthsun_distance', dist)
    G = m.pv.irradiance.get_extra_radiation
    meth = m.choice('meth', ['nrel', 'pyephem', 'NREL'])
    if kind == 'index':
        t = TIMES[:2]
        r = G(t, k, meth)
        m.true('series', isinstance(r, pd.Series) and list(r.index) == list(t))
        want, r = list(t), list(r)
    elif kind == 'stamp':
        t = TIMES[1]
        want, r = [t], [G(t, k, meth)]
    elif kind == 'doy':
        want, r = [pd.Timestamp('2014-03-01')], [G(60, k, meth)]
    elif kind == 'epoch':
        want, r = [pd.Timestamp('2020-02-29'), pd.Timestamp('2020-12-31')], list(G(np.array([60, 366]), k, meth, epoch_year=2020))
    m.true('times', len(seen) == 1 and [pd.Timestamp(x) for x in seen[0][0]] == want)
    for e, d in zip(r, [r1, r2]):
        m.eq('inverse square', e, k / (d * d))
    m.true('length', len(r) == len(want))


def extra_error(m):
    m.raises('method', ValueError, m.pv.irradiance.get_extra_radiation, 100, method='other')


def utc_hours(t):
    """hours from UTC midnight of the local calendar date to the time"""
    d = pd.Timestamp(t.year, t.month, t.day, tz='UTC')
    return (t.tz_convert('UTC') - d) / pd.Timedelta('1h')


def hourangle(m, zone):
    tz, ts = ZONES[zone]
    t = pd.DatetimeIndex(ts).tz_localize(tz)
    lon, e = m.real('lon', -180, 180), m.reals('e', len(t), -20, 20)
    r = m.pv.solarposition.hour_angle(t, lon, m.arr(e))
    m.true('length', len(r) == len(t))
    for i, x in enumerate(t):
        # 15 degrees an hour of true solar time, zero at noon
        m.eq('hour angle', r[i], 15 * (utc_hours(x) + lon / 15 + e[i] / 60 - 12))
        m.obs('h%d' % i, r[i])
    m.raises('naive times', ValueError, m.pv.solarposition.hour_angle, t.tz_localize(None), lon, m.arr(e))


def since(base, x):
    """hours from a time to a result of the geometric sunrise model"""
    if isinstance(x, pd.Timestamp):
        return (x - base) / pd.Timedelta('1h')
    return x.hours_after(base)


def geometric(m, zone, container):
    tz, ts = ZONES[zone]
    t = pd.DatetimeIndex(ts).tz_localize(tz)
    n = len(t)
    lat, lon = m.real('lat', -66, 66), m.real('lon', -180, 180)
    d, e = m.reals('d', n, -23.45, 23.45), m.reals('e', n, -20, 20)
    D, E = m.arr([m.np.radians(v) for v in d]), m.arr(e)
    f = m.pv.solarposition.sun_rise_set_transit_geometric
    rise, sets, tran = f(t, lat, lon, D, E)
    for i, x in enumerate(t):
        base = pd.Timestamp(x.year, x.month, x.day, tz='UTC')
        a, b, c = [since(base, v[i]) for v in (rise, sets, tran)]
        m.eq('transit at solar noon', c, 12 - lon / 15 - e[i] / 60)
        m.eq('symmetric', b - c, c - a)
        w = (c - a) * 15
        m.between('half day', w, 0, 180)
        # the sun is on the horizon at that hour angle
        m.eq('on the horizon', m.cosd(w) * m.cosd(lat) * m.cosd(d[i]), -m.sind(lat) * m.sind(d[i]))
    m.raises('naive times', ValueError, f, t.tz_localize(None), lat, lon, D, E)


EPH = ['2019-03-20 18:00:00', '2020-12-31 23:59:59.25', '2003-06-21 03:15', '1990-10-02 12:34:56']


def sun(stamp):
    """sidereal time, right ascension (degrees) and declination (radians) of the low-precision ephemeris, from the calendar"""
    t = pd.Timestamp(stamp)
    hour = t.hour + t.minute / 60. + t.second / 3600. + t.microsecond / 3600.e6
    days = (t.normalize() - pd.Timestamp('1899-12-31 12:00')) / pd.Timedelta('1D')       # since 1900 January 0.5
    T0, T = days / 36525, (days + hour / 24) / 36525
    g = 6 / 24. + 38 / 1440. + (45.836 + 8640184.542 * T0 + 0.0929 * T0**2) / 86400.
    st = np.mod(360 * (g - np.floor(g)) + 360 * (1.0027379093 * hour / 24.), 360)
    ob = np.radians(23.452294 - 0.0130125 * T - 1.64e-6 * T**2 + 5.03e-7 * T**3)
    per = 281.22083 + 0.0000470684 * (days + hour / 24) + 0.000453 * T**2 + 3e-6 * T**3
    M = np.mod(358.47583 + 0.985600267 * (days + hour / 24) - 0.00015 * T**2 - 3e-6 * T**3, 360)
    ec = 0.01675104 - 4.18e-5 * T - 1.26e-7 * T**2
    A, last = M, 0
    while abs(A - last) > 1e-4:
        last, A = A, M + np.degrees(ec) * np.sin(np.radians(A))
    nu = 2 * np.mod(np.degrees(np.arctan2(((1 + ec) / (1 - ec))**0.5 * np.tan(np.radians(A) / 2.), 1)), 360)
    lam = np.radians(np.mod(per + nu, 360) - 20 / 3600.)
    return st, np.degrees(np.arctan2(np.cos(ob) * np.sin(lam), np.cos(lam))), np.arcsin(np.sin(ob) * np.sin(lam))


def refraction(m, el):
    """arc seconds"""
    t = m.np.tan(m.np.radians(el))
    if el > 85 or el <= -1:
        return 0 * el
    if el > 5:
        return 58.1 / t - 0.07 / t**3 + 8.6e-5 / t**5
    if el > -0.575:
        return el * (-518.2 + el * (103.4 + el * (-12.79 + el * 0.711))) + 1735
    return -20.774 / t


def ephem(m, stamp, localized, what, fixed):
    """along a parallel or along a meridian"""
    lat = float(fixed[3:]) if fixed.startswith('lat') else m.real('lat', -89, 89)
    st, ra, dec = sun(stamp)
    if fixed.startswith('lon'):
        lon = float(fixed[3:])
    elif abs(lat) > 80:
        lon = m.real('lon', -180, 180)
    else:
        # around noon
        noon = (ra - st + 180) % 360 - 180
        lon = m.real('lon', max(noon - 20, -180), min(noon + 20, 180))
    p, temp = m.real('p', 0, 110000), m.real('temp', -60, 60)
    t = pd.DatetimeIndex([stamp])
    if localized:
        t = t.tz_localize('UTC').tz_convert(localized)
    r = m.pv.solarposition.ephemeris(t, lat, lon, pressure=p, temperature=temp)
    m.true('columns', sorted(r.columns) == ['apparent_elevation', 'apparent_zenith', 'azimuth', 'elevation', 'solar_time', 'zenith']
           and list(r.index) == list(t))

    def g(c):
        return r[c].iloc[0]
    ha = m.np.mod(360 + st + lon, 360) - ra
    if what == 'time':
        ha = ha - 360 * m.np.floor((ha + 180) / 360)
        m.obs('time', g('solar_time'))
        d = g('solar_time') * 15 - 180 - ha
        m.true('solar time', (abs(d) < 1e-6) | (abs(d - 360) < 1e-6))
        m.between('solar time range', g('solar_time'), 0, 24 + 1e-9)
    elif what == 'elevation':
        m.obs('el', g('elevation'))
        el = m.np.degrees(m.np.arcsin(m.cosd(lat) * np.cos(dec) * m.cosd(ha) + m.sind(lat) * np.sin(dec)))
        m.eq('elevation', g('elevation'), el)
        m.eq('complement', g('zenith'), 90 - g('elevation'))
        m.eq('apparent complement', g('apparent_zenith'), 90 - g('apparent_elevation'))
        m.eq('apparent elevation', g('apparent_elevation'), el + refraction(m, el) * (283 / (273. + temp)) * (p / 101325.) / 3600.)
    else:
        # direction of the east and north parts, clockwise from north
        az = m.np.degrees(m.np.arctan2(-m.sind(ha), m.cosd(lat) * np.tan(dec) - m.sind(lat) * m.cosd(ha)))
        m.obs('az', g('azimuth'))
        m.eq('azimuth', g('azimuth'), az + 360 * m.np.where(az < 0, 1, 0))
        m.between('azimuth range', g('azimuth'), 0, 360)


def jobs(tier):
    yield Job('zenith', zenith)
    for s in (1, -1):
        for q in ('inside', 'one', 'minus'):
            yield Job('azimuth %d %s' % (s, q), azimuth, params=dict(sign=s, quad=q), merge=True)
    yield Job('azimuth noon', azimuth, params=dict(sign=0, quad='inside'), merge=True)
    yield Job('azimuth pole', azimuth_zenith, params=dict(where='pole'))
    yield Job('azimuth overhead', azimuth_zenith, params=dict(where='overhead'))
    for c in ('scalar', 'array', 'series'):
        for w in ('spencer', 'cooper', 'eot', 'pvcdrom'):
            yield Job('day of year %s %s' % (w, c), day, params=dict(container=c, what=w))
        for md in ('default', 'asce', 'Spencer'):
            yield Job('extraterrestrial %s %s' % (md, c), extra, params=dict(method=md, container=c))
    for md in ('asce', 'spencer'):
        for k in ('index', 'stamp', 'naive', 'datetime', 'date', 'np'):
            yield Job('extraterrestrial %s %s' % (md, k), extra_times, params=dict(method=md, kind=k))
    for k in ('index', 'stamp', 'doy', 'epoch'):
        yield Job('extraterrestrial nrel ' + k, extra_nrel, params=dict(kind=k))
    yield Job('extraterrestrial error', extra_error)
    for i in range(len(ZONES)):
        yield Job('hour angle %d' % i, hourangle, params=dict(zone=i))
        yield Job('geometric sunrise %d' % i, geometric, params=dict(zone=i, container='array'))
    for i, t in enumerate(EPH):
        for w, fixed in (('time', 'lat89'), ('elevation', 'lat-89'), ('elevation', ['lat40', 'lat-33.5', 'lat0', 'lat60'][i]),
                         ('elevation', ['lon-105', 'lon20', 'lon140', 'lon0'][i]), ('azimuth', 'lat89'), ('azimuth', ['lat40', 'lat-33.5', 'lat5', 'lat60'][i]),
                         ('azimuth', ['lon-105', 'lon20', 'lon140', 'lon0'][i])):
            if i == 0 and abs(float(fixed[3:])) == 89:
                continue        # sun on the horizon all day
            yield Job('ephemeris %s %s %s' % (w, t, fixed), ephem, params=dict(stamp=t, localized=[None, 'America/New_York', 'Asia/Tokyo', None][i], what=w,
                                                                               fixed=fixed), merge=True)
