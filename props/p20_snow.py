import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P20'
FUNCTIONS = ['snow.fully_covered_nrel', 'snow.coverage_nrel', 'snow.dc_loss_nrel', 'snow._townsend_effective_snow', 'snow.loss_townsend', 'snow._time_delta_in_hours']
BOUNDS = ('histories of 3 and 4 steps (regular hourly, half-hourly and two-hourly, and irregular spacing); every snowfall, depth, irradiance and temperature '
          'value, the tilt, the initial coverage, both thresholds and both coefficients symbolic; 1 to 8 strings; Townsend with 1 to 3 months')
OUTSIDE = 'longer histories; missing (NaN) weather values'

GRIDS = {
    'hourly': lambda n: pd.date_range('2020-01-01', periods=n, freq='h', tz='UTC'),
    '30 min': lambda n: pd.date_range('2020-01-01', periods=n, freq='30min', tz='UTC'),
    '2 h': lambda n: pd.date_range('2020-01-01', periods=n, freq='2h', tz='UTC'),
    'irregular': lambda n: pd.DatetimeIndex(['2020-01-01 00:00', '2020-01-01 01:00', '2020-01-01 01:30', '2020-01-01 05:00'][:n], tz='UTC'),
}


def ser(m, nm, index, lo, hi, **k):
    v = [m.real('%s_%d' % (nm, i), lo, hi, **k) for i in range(len(index))]
    return pd.Series(m.arr(v), index=index, dtype=object if m.symbolic else float), v


def cover(m, n, grid, depth=False, default=False, tilts=False):
    """the coverage is the documented recursion"""
    index = GRIDS[grid](n)
    dt = [None] + [(index[i] - index[i - 1]).total_seconds() / 3600 for i in range(1, n)]
    if grid != 'irregular' and n > 2:
        dt[0] = dt[1]          # the first interval is known when the spacing is regular
    S, s = ser(m, 'snow', index, 0, 20)
    G, g = ser(m, 'poa', index, 0, 1200)
    A, a = ser(m, 'air', index, -30, 20)
    kw, thr, td, cs, ca = {}, 1.0, 1.0, -80.0, .197
    init = 0
    if not default:
        init, thr, td = m.real('initial', 0, 1), m.real('threshold', 0, 5), m.real('threshold_depth', 0, 10)
        ca, cs = m.real('amount', 0, 1), -m.real('slide', 10, 200)
        kw = dict(initial_coverage=init, threshold_snowfall=thr, threshold_depth=td, slide_amount_coefficient=ca, can_slide_coefficient=cs)
    D, d = None, None
    if depth:
        D, d = ser(m, 'depth', index, 0, 100)
        kw['snow_depth'] = D
    if tilts:
        tl = [m.real('tilt_%d' % i, 0, 90) for i in range(n)]
        tilt = pd.Series(m.arr(tl), index=index, dtype=object if m.symbolic else float)
    else:
        tilt = m.real('tilt', 0, 90)
        tl = [tilt] * n
    F = m.pv.snow
    r = F.coverage_nrel(S, G, A, tilt, **kw)
    m.true('index', r.index.equals(index))
    kc = dict(threshold_snowfall=thr)
    if depth:
        kc.update(snow_depth=D, threshold_depth=td)
    c = F.fully_covered_nrel(S, **kc)
    prev = None
    for i in range(n):
        full = dt[i] is not None and s[i] / dt[i] > thr
        if depth and full is not False:
            full = full and d[i] >= td
        full = bool(full)
        m.true('covered exactly when the snowfall rate exceeds the threshold', bool(c.iloc[i]) == full)
        if full:
            e = 1.0
        else:
            e = init if i == 0 else prev
            if depth and d[i] < td:
                e = e - 1.0
            elif i > 0 and a[i] > g[i] / cs:
                e = e - ca * m.sind(tl[i]) * dt[i]
            e = e if e > 0 else 0.0
        x = r.iloc[i]
        m.eq('coverage after step %d' % i, x, e)
        m.between('coverage', x, 0, 1)
        if i and not full:
            m.le('coverage only grows with new snow', x, r.iloc[i - 1])
        if full:
            m.eq('fully covered', x, 1)
        prev = e
        m.obs('coverage', x)


def strings(m, n):
    x = m.real('coverage', 0, 1)
    k = float(n)
    L = m.pv.snow.dc_loss_nrel(x, n)
    m.between('loss', L, 0, 1)
    m.le('at least the covered fraction', x, L)
    m.true('less than one string more', L * k < x * k + 1)
    m.true('whole strings', sum((bool(abs(L * k - j) < 1e-9) for j in range(n + 1)), 0) == 1)
    m.obs('loss', L)


def townsend(m, n, default=False):
    s = [m.real('snow_%d' % i, 0, 300) for i in range(n)]
    ev = [m.int('events_%d' % i, 1, 30) if m.choice('snow in month %d' % i, [True, False]) else 0.0 for i in range(n)]
    rh = [m.real('rh_%d' % i, 0, 100) for i in range(n)]
    t = [m.real('air_%d' % i, -30, 30) for i in range(n)]
    g = [m.real('poa_%d' % i, 1000, 300000) for i in range(n)]
    tilt, slant, low = m.real('tilt', 0, 90), m.real('slant', .1, 20), m.real('edge', 0, 10)
    kw, sf, ang, fsf = {}, 1.0, 40.0, 1.0
    if not default:
        sf, fsf = m.real('string_factor', .5, 1), m.real('front', 0, 1)
        ang = 35.0
        kw = dict(string_factor=sf, angle_of_repose=ang, front_side_fraction=fsf)
    A = m.arr
    L = m.pv.snow.loss_townsend(A(s), A(ev), tilt, A(rh), A(t), A(g), slant, low, **kw)
    m.true('one loss a month', len(L) == n)

    def effective(j):
        return .5 * (s[j] / 2.54) * (1 + 1 / ev[j]) if m.symbolic and not isinstance(ev[j], float) or ev[j] > 0 else 0.0
    for i in range(n):
        eff = 1 / 3 * effective(i - 1 if i else n - 1) + 2 / 3 * effective(i)
        dist = m.np.clip((low * 39.37) ** 2 - eff ** 2, .1, None)
        gamma = slant * 39.37 * eff * m.cosd(tilt) / dist * 2 * m.np.tan(m.np.radians(ang))
        gi = 1 - .51 * m.np.exp(-gamma)
        e = 57000 * eff * m.cosd(tilt) ** 2 * gi * (rh[i] / 100) / (t[i] + 273.15) ** 2 / (g[i] / 1000) ** .67 * sf * fsf
        m.eq('monthly loss', L[i], m.np.clip(e, 0, 1))
        m.between('monthly loss', L[i], 0, 1)
        m.obs('loss', L[i])


def jobs(tier):
    for grid in GRIDS:
        for n in (3,) + ((4,) if tier != 'quick' or grid == 'hourly' else ()):
            yield Job('coverage, %s, %d steps' % (grid, n), cover, params=dict(n=n, grid=grid), max_paths=4000)
            yield Job('coverage, %s, %d steps, defaults' % (grid, n), cover, params=dict(n=n, grid=grid, default=True), max_paths=4000)
        for n in ((3,) if grid in ('hourly', 'irregular') else ()) if tier == 'quick' else (3, 4):
            yield Job('coverage, %s, %d steps, depth' % (grid, n), cover, params=dict(n=n, grid=grid, depth=True), max_paths=4000)
        yield Job('coverage, %s, 3 steps, depth, default thresholds' % grid, cover, params=dict(n=3, grid=grid, depth=True, default=True), max_paths=4000)
    yield Job('coverage, tilt series', cover, params=dict(n=3, grid='hourly', tilts=True), max_paths=4000)
    for n in range(1, 9):
        yield Job('strings, %d' % n, strings, params=dict(n=n))
    for n in (1, 2, 3):
        yield Job('Townsend, %d months' % n, townsend, params=dict(n=n), merge=True)
        yield Job('Townsend, %d months, defaults' % n, townsend, params=dict(n=n, default=True), merge=True)
