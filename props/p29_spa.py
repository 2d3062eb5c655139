import inspect
import json
import os
import types
import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P29'
STEPS = ['julian_day_dt', 'julian_day', 'julian_ephemeris_day', 'julian_century', 'julian_ephemeris_century', 'julian_ephemeris_millennium',
         'sum_mult_cos_add_mult', 'heliocentric_longitude', 'heliocentric_latitude', 'heliocentric_radius_vector', 'geocentric_longitude',
         'geocentric_latitude', 'mean_elongation', 'mean_anomaly_sun', 'mean_anomaly_moon', 'moon_argument_latitude', 'moon_ascending_longitude',
         'longitude_obliquity_nutation', 'mean_ecliptic_obliquity', 'true_ecliptic_obliquity', 'aberration_correction', 'apparent_sun_longitude',
         'mean_sidereal_time', 'apparent_sidereal_time', 'geocentric_sun_right_ascension', 'geocentric_sun_declination', 'local_hour_angle',
         'equatorial_horizontal_parallax', 'uterm', 'xterm', 'yterm', 'parallax_sun_right_ascension', 'topocentric_sun_right_ascension',
         'topocentric_sun_declination', 'topocentric_local_hour_angle', 'topocentric_elevation_angle_without_atmosphere',
         'atmospheric_refraction_correction', 'topocentric_elevation_angle', 'topocentric_zenith_angle', 'topocentric_astronomers_azimuth',
         'topocentric_azimuth_angle', 'sun_mean_longitude', 'equation_of_time', 'solar_position_loop', 'solar_position_numba', 'solar_position_numpy',
         'solar_position', 'transit_sunrise_sunset', 'earthsun_distance', 'calculate_deltat']
FUNCTIONS = ['spa.' + s for s in STEPS]
BOUNDS = ('all real inputs of each step (angles within 720 degrees, 20 centuries around 2000); whole chain: arbitrary times, delta T, site, pressure, '
          'temperature and refraction, arrays of up to 3 times, up to 3 threads started in every order; transit: arbitrary sun coordinates of three days at '
          'latitudes 70 and -75; delta T: all real years -2000 to 5000; Julian day: all days of years 0 to 3000')
OUTSIDE = ('agreement of the published algorithm with the real sun; tables of periodic terms are compared with a copy of the published ones; numba-compiled '
           'machine code (the same Python source is executed uncompiled); interleaving of threads inside one chunk (chunks are disjoint columns); the value of '
           'sunrise and sunset below the polar circles')
TABLES = {k: np.array(v, dtype=float) for k, v in json.load(open(os.path.join(os.path.dirname(__file__), 'spa_tables.json'))).items()}


def calendar_day(m, month, style):
    """days of the (Julian until 1582, then Gregorian) calendar"""
    y = m.int('y', 1583, 3000) if style == 'gregorian' else m.int('y', 0, 1581)
    d, h, mi, s, us = m.int('d', 1, 28), 13, 7, 50, 250000
    r = m.pv.spa.julian_day_dt(y, month, d, h, mi, s, us)
    F = m.np.floor
    yy = y - (1 if month <= 2 else 0)
    mm = (month + 9) % 12
    # days since 1 March of year 0
    n = 365 * yy + F(yy / 4) + (153 * mm + 2) // 5 + d - 1
    n = n + ((F(yy / 400) - F(yy / 100) + 1721119.5) if style == 'gregorian' else 1721117.5)
    m.eq('day number', r, n + (h * 3600 + mi * 60 + s + us / 1e6) / 86400)
    m.obs('jd', r)


def calendar_time(m):
    """time of day as a fraction"""
    h, mi, s, us = m.int('h', 0, 23), m.int('mi', 0, 59), m.int('s', 0, 59), m.int('us', 0, 999999)
    r = m.pv.spa.julian_day_dt(2003, 10, 17, h, mi, s, us)
    m.eq('fraction', r - 2452929.5, (h * 3600 + mi * 60 + s + us / 1e6) / 86400, atol=1e-9)


def times(m):
    S = m.pv.spa
    t, dt = m.real('t', -6e10, 6e10), m.real('dt', -1e4, 1e4)
    m.eq('Julian day', S.julian_day(t), t / 86400 + 2440587.5)
    m.eq('ephemeris day', S.julian_ephemeris_day(t, dt), t + dt / 86400)
    m.eq('century', S.julian_century(t), (t - 2451545) / 36525)
    m.eq('ephemeris century', S.julian_ephemeris_century(t), (t - 2451545) / 36525)
    m.eq('millennium', S.julian_ephemeris_millennium(t), t / 10)


def poly(c, x):
    r = 0
    for i, k in enumerate(c):
        r = r + k * x**i
    return r


def polynomials(m):
    S = m.pv.spa
    x = m.real('x', -40, 40)
    for f, c in (('mean_elongation', [297.85036, 445267.111480, -0.0019142, (1, 189474)]),
                 ('mean_anomaly_sun', [357.52772, 35999.050340, -0.0001603, (-1, 300000)]),
                 ('mean_anomaly_moon', [134.96298, 477198.867398, 0.0086972, (1, 56250)]),
                 ('moon_argument_latitude', [93.27191, 483202.017538, -0.0036825, (1, 327270)]),
                 ('moon_ascending_longitude', [125.04452, -1934.136261, 0.0020708, (1, 450000)]),
                 ('sun_mean_longitude', [280.4664567, 360007.6982779, 0.03032028, (1, 49931), (-1, 15300), (-1, 2000000)])):
        e = 0
        for i, k in enumerate(c):
            e = e + (k[0] * x**i / k[1] if isinstance(k, tuple) else k * x**i)
        m.eq(f, getattr(S, f)(x), e)
    u = x / 10
    m.eq('mean_ecliptic_obliquity', S.mean_ecliptic_obliquity(x),
         poly([84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12, 27.87, 5.79, 2.45], u))


def linear(m):
    S = m.pv.spa
    a, b, c, r = m.real('a', -720, 720), m.real('b', -720, 720), m.real('c', -720, 720), m.real('r', 0.9, 1.1)
    m.eq('true obliquity', S.true_ecliptic_obliquity(a, b), a / 3600 + b)
    m.eq('aberration', S.aberration_correction(r), -20.4898 / (3600 * r))
    m.eq('apparent longitude', S.apparent_sun_longitude(a, b, c), a + b + c)
    m.eq('apparent sidereal time', S.apparent_sidereal_time(a, b, c), a + b * m.cosd(c))
    m.eq('parallax', S.equatorial_horizontal_parallax(r), 8.794 / (3600 * r))
    m.eq('geocentric latitude', S.geocentric_latitude(a), -a)
    m.eq('topocentric right ascension', S.topocentric_sun_right_ascension(a, b), a + b)
    m.eq('topocentric hour angle', S.topocentric_local_hour_angle(a, b), a - b)
    m.eq('elevation', S.topocentric_elevation_angle(a, b), a + b)
    m.eq('zenith', S.topocentric_zenith_angle(a), 90 - a)
    e = m.real('e', -500, 9000)
    lat = m.real('lat', -90, 90)
    m.eq('x', S.xterm(m.np.radians(a), lat, e), m.cosd(a) + e / 6378140 * m.cosd(lat))
    m.eq('y', S.yterm(m.np.radians(a), lat, e), 0.99664719 * m.sind(a) + e / 6378140 * m.sind(lat))
    lat2 = m.real('lat2', -89, 89)
    m.eq('u', m.np.tan(S.uterm(lat2)) * m.cosd(lat2), 0.99664719 * m.sind(lat2))


def wrap(m, what):
    """angles are reduced to [0, 360)"""
    S = m.pv.spa
    a, b, c = m.real('a', -720, 720), m.real('b', -180, 180), m.real('c', 0, 360)
    if what == 'sidereal':
        jd, jc = m.real('jd', 2451000, 2452000), m.real('jc', -1, 1)
        r, e = S.mean_sidereal_time(jd, jc), 280.46061837 + 360.98564736629 * (jd - 2451545) + 0.000387933 * jc**2 - jc**3 / 38710000
    elif what == 'longitude':
        r, e = S.geocentric_longitude(a), a + 180
    elif what == 'hour angle':
        r, e = S.local_hour_angle(a, b, c), a + b - c
    elif what == 'azimuth':
        r, e = S.topocentric_azimuth_angle(a), a + 180
    m.between('range', r, 0, 360)
    m.true('below a turn', r < 360)
    m.eq('same angle', r, e - 360 * m.np.floor(e / 360))
    m.obs('r', r)


def periodic(m, what, copies):
    """sums of periodic terms and their combination; the arguments are arbitrary angles"""
    S = m.pv.spa
    if what == 'sum':
        A = m.reals('a', 3, -1e6, 1e6)
        x = m.real('x', -2, 2)
        b, c = [1.25, 4.0, 2.5], [3.0, 1.5, 2.0]
        r = S.sum_mult_cos_add_mult(m.np.array([[A[i], b[i], c[i]] for i in range(3)]), x)
        m.eq('sum', r, sum(A[i] * m.np.cos(b[i] + c[i] * x) for i in range(3)))
        return
    tabs, power, f = {'longitude': ('L', 6, S.heliocentric_longitude), 'latitude': ('B', 2, S.heliocentric_latitude),
                      'radius': ('R', 5, S.heliocentric_radius_vector)}[what]
    for k in range(power):
        mine, theirs = TABLES[tabs + str(k)], np.asarray(getattr(S, tabs + str(k)), dtype=float)
        m.true('table %s%d' % (tabs, k), mine.shape == theirs.shape and bool((mine == theirs).all()))
    u = [m.real('u%d' % k, -2e8, 2e8) for k in range(power)]
    x = m.real('x', -2, 2)

    def sums(arr, t):
        for k in range(power):
            if np.asarray(arr).shape == TABLES[tabs + str(k)].shape and (np.asarray(arr, dtype=float) == TABLES[tabs + str(k)]).all():
                return u[k]
        raise AssertionError('unknown table')
    m.stub('spa', 'sum_mult_cos_add_mult', sums)
    r = f(x)
    e = poly(u, x) / 1e8
    if what == 'radius':
        m.eq('radius', r, e)
    elif what == 'latitude':
        m.eq('latitude', r, m.np.degrees(e))
    else:
        d = m.np.degrees(e)
        m.eq('longitude', r, d % 360)


def nutation(m):
    S = m.pv.spa
    A, Y = TABLES['NUTATION_ABCD_ARRAY'], TABLES['NUTATION_YTERM_ARRAY']
    m.true('amplitudes', bool((np.asarray(S.NUTATION_ABCD_ARRAY, dtype=float) == A).all()))
    m.true('multiples', bool((np.asarray(S.NUTATION_YTERM_ARRAY, dtype=float) == Y).all()))
    jce = m.real('jce', -20, 20)
    x = m.reals('x', 5, -360, 360)
    for row in range(0, 63, 9):
        i = slice(row, row + 9)
        m.mod('spa').NUTATION_ABCD_ARRAY, m.mod('spa').NUTATION_YTERM_ARRAY = A[i], Y[i]
        try:
            out = m.np.empty(2)
            S.longitude_obliquity_nutation(jce, *x, out)
            psi = eps = 0
            for a, y in zip(A[i], Y[i]):
                arg = sum(float(k) * v for k, v in zip(y, x))
                psi = psi + (a[0] + a[1] * jce) * m.sind(arg)
                eps = eps + (a[2] + a[3] * jce) * m.cosd(arg)
            m.eq('longitude %d' % row, out[0], psi / 36000000)
            m.eq('obliquity %d' % row, out[1], eps / 36000000)
        finally:
            m.mod('spa').NUTATION_ABCD_ARRAY, m.mod('spa').NUTATION_YTERM_ARRAY = A, Y


def equatorial(m):
    S = m.pv.spa
    N = m.np
    lam, eps, beta = m.real('lam', -1, 361), m.real('eps', 22, 25), m.real('beta', -0.01, 0.01)
    r = S.geocentric_sun_right_ascension(lam, eps, beta)
    e = N.degrees(N.arctan2(m.sind(lam) * m.cosd(eps) - m.sind(beta) / m.cosd(beta) * m.sind(eps), m.cosd(lam)))
    m.eq('right ascension', r, e - 360 * N.floor(e / 360))
    m.between('right ascension range', r, 0, 360)
    m.obs('ra', r)


def declination(m):
    S = m.pv.spa
    N = m.np
    lam, eps, beta = m.real('lam', -1, 361), m.real('eps', 22, 25), m.real('beta', -0.01, 0.01)
    s = m.sind(beta) * m.cosd(eps) + m.cosd(beta) * m.sind(eps) * m.sind(lam)
    m.assume(s <= 1)
    m.assume(s >= -1)
    d = S.geocentric_sun_declination(lam, eps, beta)
    m.eq('declination', m.sind(d), s)
    m.between('declination range', d, -90, 90)
    m.obs('d', d)


def topocentric(m):
    S, N = m.pv.spa, m.np
    x, y, xi = m.real('x', 0, 1.01), m.real('y', -1.01, 1.01), m.real('xi', 0.002, 0.003)
    H, d, da = m.real('H', 0, 360), m.real('d', -24, 24), m.real('da', -0.01, 0.01)
    r = S.parallax_sun_right_ascension(x, xi, H, d)
    e = N.degrees(N.arctan2(-x * m.sind(xi) * m.sind(H), m.cosd(d) - x * m.sind(xi) * m.cosd(H)))
    m.eq('parallax', r, e)
    r = S.topocentric_sun_declination(d, x, y, xi, da, H)
    e = N.degrees(N.arctan2((m.sind(d) - y * m.sind(xi)) * m.cosd(da), m.cosd(d) - x * m.sind(xi) * m.cosd(H)))
    m.eq('declination', r, e)


def horizontal(m, what):
    S, N = m.pv.spa, m.np
    H, d, lat = m.real('H', -1, 361), m.real('d', -24, 24), m.real('lat', -90, 90)
    if what == 'elevation':
        s = m.sind(lat) * m.sind(d) + m.cosd(lat) * m.cosd(d) * m.cosd(H)
        m.assume(s <= 1)
        m.assume(s >= -1)
        r = S.topocentric_elevation_angle_without_atmosphere(lat, d, H)
        m.eq('elevation', m.sind(r), s)
        m.between('range', r, -90, 90)
    else:
        r = S.topocentric_astronomers_azimuth(H, d, lat)
        e = N.degrees(N.arctan2(m.sind(H), m.cosd(H) * m.sind(lat) - m.sind(d) / m.cosd(d) * m.cosd(lat)))
        m.eq('azimuth', r, e - 360 * N.floor(e / 360))
        m.between('range', r, 0, 360)
    m.obs('r', r)


def refraction(m, where):
    S, N = m.pv.spa, m.np
    p, T, ref = m.real('p', 0, 1100), m.real('T', -60, 60), m.real('ref', 0, 1)
    lim = -(0.26667 + ref)
    e0 = m.real('e0', -90, -5.2) if where == 'below' else m.real('e0', -5, 90)
    if where == 'below':
        m.eq('none below the horizon', S.atmospheric_refraction_correction(p, T, e0, ref), 0)
        return
    r = S.atmospheric_refraction_correction(p, T, e0, ref)
    a = e0 + 10.3 / (e0 + 5.11)
    m.assume(m.sind(a) > 0)
    full = p / 1010 * (283 / (273 + T)) * 1.02 / (60 * N.tan(N.radians(a)))
    if e0 >= lim:
        m.eq('formula', r, full)
    else:
        m.eq('none below the horizon', r, 0)
    m.obs('r', r)


def eot(m):
    S = m.pv.spa
    M, al, dpsi, eps = m.real('M', -7000, 7000), m.real('al', 0, 360), m.real('dpsi', -0.01, 0.01), m.real('eps', 22, 25)
    r = S.equation_of_time(M, al, dpsi, eps)
    e = M - 0.0057183 - al + dpsi * m.cosd(eps)
    turns = m.np.floor(e / 360)
    f = 4 * (e - 360 * turns)       # minutes in [0, 1440)
    m.eq('minutes', r, f - 1440 if f > 20 else f)
    m.obs('r', r)
    m.between('a day', r, -1440, 20)


def deltat(m, era):
    lo, hi = era
    y, mo = m.real('y', lo, hi), m.int('mo', 1, 12)
    if hi < 4000:
        m.assume(y < hi)
    r = m.pv.spa.calculate_deltat(y, mo)
    t = y + (mo - 0.5) / 12
    P = {-2000: lambda: -20 + 32 * ((t - 1820) / 100)**2,
         -500: lambda: poly([10583.6, -1014.41, 33.78311, -5.952053, -0.1798452, 0.022174192, 0.0090316521], t / 100),
         500: lambda: poly([1574.2, -556.01, 71.23472, 0.319781, -0.8503463, -0.005050998, 0.0083572073], (t - 1000) / 100),
         1600: lambda: poly([120, -0.9808, -0.01532], t - 1600) + (t - 1600)**3 / 7129,
         1700: lambda: poly([8.83, 0.1603, -0.0059285, 0.00013336], t - 1700) - (t - 1700)**4 / 1174000,
         1800: lambda: poly([13.72, -0.332447, 0.0068612, 0.0041116, -0.00037436, 0.0000121272, -0.0000001699, 0.000000000875], t - 1800),
         1860: lambda: poly([7.62, 0.5737, -0.251754, 0.01680668, -0.0004473624], t - 1860) + (t - 1860)**5 / 233174,
         1900: lambda: poly([-2.79, 1.494119, -0.0598939, 0.0061966, -0.000197], t - 1900),
         1920: lambda: poly([21.20, 0.84493, -0.076100, 0.0020936], t - 1920),
         1941: lambda: 29.07 + 0.407 * (t - 1950) - (t - 1950)**2 / 233 + (t - 1950)**3 / 2547,
         1961: lambda: 45.45 + 1.067 * (t - 1975) - (t - 1975)**2 / 260 - (t - 1975)**3 / 718,
         1986: lambda: poly([63.86, 0.3345, -0.060374, 0.0017275, 0.000651814, 0.00002373599], t - 2000),
         2005: lambda: poly([62.92, 0.32217, 0.005589], t - 2000),
         2050: lambda: -20 + 32 * ((t - 1820) / 100)**2 - 0.5628 * (2150 - t),
         2150: lambda: -20 + 32 * ((t - 1820) / 100)**2}
    m.eq('formula', m.item(r), P[lo]())
    m.obs('r', m.item(r))


ERAS = [-2000, -500, 500, 1600, 1700, 1800, 1860, 1900, 1920, 1941, 1961, 1986, 2005, 2050, 2150, 5000]
PLAIN = [n for n in STEPS[1:STEPS.index('solar_position_loop')] if n not in ('sum_mult_cos_add_mult', 'longitude_obliquity_nutation')]


def stubs(m):
    """each step an uninterpreted function of its arguments"""
    def uf(name, *a):
        if any(isinstance(x, np.ndarray) and x.ndim for x in a):
            n = max(len(x) for x in a if isinstance(x, np.ndarray) and x.ndim)
            return m.np.array([uf(name, *[x[i] if isinstance(x, np.ndarray) and x.ndim else x for x in a]) for i in range(n)])
        return m.uf(name, *[m.item(x) for x in a], lo=-50, hi=50)

    def stub(name):
        sig = inspect.signature(inspect.unwrap(getattr(m.mod('spa'), name)))

        def f(*a, **k):
            b = sig.bind(*a, **k)
            return uf(name, *b.arguments.values())
        return f

    def nutation(jce, x0, x1, x2, x3, x4, out):
        out[0], out[1] = uf('psi', jce, x0, x1, x2, x3, x4), uf('eps', jce, x0, x1, x2, x3, x4)
    for n in PLAIN:
        m.stub('spa', n, stub(n))
    m.stub('spa', 'longitude_obliquity_nutation', nutation)


def step_chain(m, t, lat, lon, elev, p, T, ref, dt):
    """the published order of the steps"""
    def S(name, *a):
        return m.uf(name, *a, lo=-50, hi=50)
    jd = S('julian_day', t)
    jde = S('julian_ephemeris_day', jd, dt)
    jc, jce = S('julian_century', jd), S('julian_ephemeris_century', jde)
    jme = S('julian_ephemeris_millennium', jce)
    R = S('heliocentric_radius_vector', jme)
    theta, beta = S('geocentric_longitude', S('heliocentric_longitude', jme)), S('geocentric_latitude', S('heliocentric_latitude', jme))
    x = [S(n, jce) for n in ('mean_elongation', 'mean_anomaly_sun', 'mean_anomaly_moon', 'moon_argument_latitude', 'moon_ascending_longitude')]
    psi, eps = S('psi', jce, *x), S('true_ecliptic_obliquity', S('mean_ecliptic_obliquity', jme), S('eps', jce, *x))
    lam = S('apparent_sun_longitude', theta, psi, S('aberration_correction', R))
    v = S('apparent_sidereal_time', S('mean_sidereal_time', jd, jc), psi, eps)
    al, de = S('geocentric_sun_right_ascension', lam, eps, beta), S('geocentric_sun_declination', lam, eps, beta)
    H = S('local_hour_angle', v, lon, al)
    xi = S('equatorial_horizontal_parallax', R)
    u = S('uterm', lat)
    x, y = S('xterm', u, lat, elev), S('yterm', u, lat, elev)
    da = S('parallax_sun_right_ascension', x, xi, H, de)
    dp = S('topocentric_sun_declination', de, x, y, xi, da, H)
    Hp = S('topocentric_local_hour_angle', H, da)
    e0 = S('topocentric_elevation_angle_without_atmosphere', lat, dp, Hp)
    e = S('topocentric_elevation_angle', e0, S('atmospheric_refraction_correction', p, T, e0, ref))
    az = S('topocentric_azimuth_angle', S('topocentric_astronomers_azimuth', Hp, dp, lat))
    return dict(pos=[S('topocentric_zenith_angle', e), S('topocentric_zenith_angle', e0), e, e0, az,
                     S('equation_of_time', S('sun_mean_longitude', jme), al, psi, eps)], sst=[v, al, de], esd=[R])


class Threads:
    """stand-in for threading: the chunks run in any order"""

    def __init__(self, m):
        self.m, self.todo = m, []

    def Thread(self, target=None, args=(), **k):
        job = types.SimpleNamespace(run=lambda: target(*args))
        job.start = lambda: self.todo.append(job)
        job.join = self.flush
        return job

    def flush(self, *a):
        while self.todo:
            i = self.m.choice('order%d' % len(self.todo), list(range(len(self.todo)))) if len(self.todo) > 1 else 0
            self.todo.pop(i).run()


def chain(m, variant, kind, threads, n):
    """solar positions of an array of times: every column is the published composition of the steps for its own time"""
    S = m.pv.spa
    stubs(m)
    t = m.arr(m.reals('t', n, -1e9, 5e9))
    kw = {'sst': dict(sst=True), 'esd': dict(esd=True), 'pos': {}}[kind]
    site = [m.real('lat', -90, 90), m.real('lon', -180, 180), m.real('elev', -400, 6000), m.real('p', 0, 1100), m.real('T', -60, 60)]
    ref, dt = m.real('ref', 0, 1), m.real('dt', -20, 1e4)
    f = getattr(S, 'solar_position_' + variant) if variant != 'default' else S.solar_position
    th = Threads(m)
    m.stub('spa', 'threading', types.SimpleNamespace(Thread=th.Thread))
    dts = m.arr(m.reals('dts', n, -20, 1e4)) if threads == 2 else [dt] * n
    r = f(t, *site, dts if threads == 2 else dt, ref, threads, **kw)
    for i in range(n):
        e = step_chain(m, t[i], *site, ref, dts[i])[kind]
        m.true('rows', len(r) == len(e))
        for k in range(len(e)):
            m.eq('%s %d of time %d' % (kind, k, i), r[k][i], e[k])


def distance(m):
    stubs(m)
    t = m.arr(m.reals('t', 3, -1e9, 5e9))
    dt = m.real('dt', -20, 1e4)
    r = m.pv.spa.earthsun_distance(t, dt, 1)
    for i in range(3):
        m.eq('distance', r[i], step_chain(m, t[i], 0, 0, 0, 0, 0, 0, dt)['esd'][0])


def sunrise(m, lat, wrap=None):
    """transit from the sun coordinates of three days; no rise or set in polar summer and winter"""
    S, N = m.pv.spa, m.np
    day = 86400.0 * 16000
    dt = 64.0
    v, lon = m.real('v', 0, 360), 15.0
    al, de = m.reals('al', 3, 100, 104) if not wrap else m.reals('al', 3, 357, 363), m.reals('de', 3, -24, 24)
    raw = al
    if wrap:  # the right ascension passes from 360 to 0 between two of the days (daily step below one degree there)
        k = 1 if wrap == 'before' else 2
        for i in range(2):
            m.assume(al[i + 1] - al[i] < 1)
            m.assume(al[i + 1] - al[i] > 0.5)
        m.assume(al[k - 1] < 359.99)
        m.assume(al[k] >= 360.01)
        raw = [x - 360 if i >= k else x for i, x in enumerate(al)]
    for x in (al, de):
        m.assume(abs(x[1] - x[0]) <= 2)
        m.assume(abs(x[2] - x[1]) <= 2)
    m.assume(de[1] > 21.0)
    seen = []

    def pos(t, la, lo, elev, p, T, delta, ref, numthreads=8, sst=False, esd=False):
        t0 = float(np.asarray(t, dtype=float)[0])
        seen.append((t0, sst, esd, delta))
        k = {day: None, day - dt: 1, day - dt - 86400: 0, day - dt + 86400: 2}[t0]
        return m.np.array([[v], [raw[1 if k is None else k]], [de[1 if k is None else k]]])
    m.stub('spa', 'solar_position', pos)
    m.total_arcsin()
    tr, ri, se = S.transit_sunrise_sunset(np.array([day]), lat, lon, dt, 1)
    m.true('coordinates of the days around', sorted(s[0] for s in seen) == [day - dt - 86400, day - dt, day, day - dt + 86400])
    m.true('sun coordinates only', all(s[1] and not s[2] for s in seen))
    m0 = (al[1] - lon - v) / 360
    m0 = m0 - N.floor(m0)
    a, b = al[1] - al[0], al[2] - al[1]
    n = m0 + dt / 86400
    H = v + 360.985647 * m0 + lon - (al[1] + n * (a + b + (b - a) * n) / 2)
    H = H - 360 * N.floor(H / 360)
    H = H - 360 if H >= 180 else H
    m.eq('transit', tr[0], (m0 - H / 360) * 86400 + day, rtol=1e-12, atol=1e-5)
    m.nan('sunrise', ri[0])
    m.nan('sunset', se[0])


def sunrise_date(m):
    m.raises('not midnight', ValueError, m.pv.spa.transit_sunrise_sunset, np.array([86400.0 * 3 + 60]), m.real('lat', -80, 80), 0, 60, 1)


def jobs(tier):
    for k in range(1, 13):
        for c in ('gregorian', 'julian'):
            yield Job('calendar %s %d' % (c, k), calendar_day, params=dict(month=k, style=c))
    yield Job('calendar time', calendar_time)
    yield Job('times', times)
    yield Job('polynomials', polynomials)
    yield Job('linear', linear)
    for w in ('sidereal', 'longitude', 'hour angle', 'azimuth'):
        yield Job('wrap ' + w, wrap, params=dict(what=w))
    for w in ('sum', 'longitude', 'latitude', 'radius'):
        yield Job('periodic ' + w, periodic, params=dict(what=w, copies=1))
    yield Job('nutation', nutation)
    yield Job('right ascension', equatorial)
    yield Job('declination', declination)
    yield Job('topocentric', topocentric)
    yield Job('elevation', horizontal, params=dict(what='elevation'))
    yield Job('azimuth', horizontal, params=dict(what='azimuth'))
    yield Job('refraction', refraction, params=dict(where='above'))
    yield Job('refraction below', refraction, params=dict(where='below'))
    yield Job('equation of time', eot)
    for i in range(len(ERAS) - 1):
        yield Job('delta T %d' % ERAS[i], deltat, params=dict(era=(ERAS[i], ERAS[i + 1])), merge=True)
    for v, th, n in (('numpy', 1, 3), ('numba', 1, 3), ('numba', 2, 3), ('numba', 3, 3), ('numba', 4, 2), ('default', 1, 2)):
        for k in ('pos', 'sst', 'esd'):
            yield Job('chain %s %s %d threads' % (v, k, th), chain, params=dict(variant=v, kind=k, threads=th, n=n))
    yield Job('distance', distance)
    for lat in (70.0, -75.0):
        yield Job('transit %g' % lat, sunrise, params=dict(lat=lat))
    for w in ('before', 'after'):
        yield Job('transit equinox ' + w, sunrise, params=dict(lat=70.0, wrap=w))
    yield Job('sunrise date', sunrise_date)
