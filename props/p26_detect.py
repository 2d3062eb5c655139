import contextlib
import warnings
import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P26'
FUNCTIONS = ['clearsky.' + f for f in ('detect_clearsky', '_calc_stats', '_slope_nstd_windowed', '_max_diff_windowed', '_line_length_windowed',
                                       '_to_centered_series', '_clear_sample_index', '_clearsky_get_threshold')] + ['tools._get_sample_intervals']
BOUNDS = ('measured and clear-sky series of 4 and 5 samples (all values 0 to 1500 W/m2), windows of 3 samples, 1 and 2 minutes apart; each criterion with a '
          'symbolic threshold on its own, pairs and all five with fixed thresholds on 3 samples; scaling after one and two rounds')
OUTSIDE = 'longer series and windows; convergence of the scaling beyond two rounds'
INF = float("inf")
LOOSE = dict(mean_diff=INF, max_diff=INF, lower_line_length=-INF, upper_line_length=INF, var_diff=INF, slope_dev=INF)


def times(n, step=1):
    return pd.date_range('2021-06-01 12:00', periods=n, freq='%dmin' % step, tz='UTC')


def flags(m, meas, clear, th, step, w=3):
    """the five criteria for every window of w samples"""
    n, np_ = len(meas), m.np
    top = lambda v: np_.maximum(np_.maximum(v[0], v[1]), v[2]) if len(v) == 3 else np_.maximum(v[0], v[1])

    def window(a, c):
        da, dc = [a[i + 1] - a[i] for i in range(w - 1)], [c[i + 1] - c[i] for i in range(w - 1)]
        mean = lambda v: sum(v[1:], v[0]) / len(v)
        length = lambda d: sum([np_.sqrt(x**2 + float(step)**2) for x in d], 0)
        sl = [x / float(step) for x in da]
        dev = np_.sqrt(sum([(x - mean(sl))**2 for x in sl], 0) / (len(sl) - 1)) / mean(a)
        ll = length(da) - length(dc)
        jump = top([np_.abs((a[i + 1] - c[i + 1]) - (a[i] - c[i])) for i in range(w - 1)])
        return [lambda: np_.abs(mean(a) - mean(c)) < th['mean_diff'], lambda: np_.abs(top(a) - top(c)) < th['max_diff'],
             lambda: (ll > th['lower_line_length']) and (ll < th['upper_line_length']), lambda: dev < th['var_diff'],
             lambda: jump < th['slope_dev'], lambda: mean(c) != 0]
    return [window(meas[k:k + w], clear[k:k + w]) for k in range(n - w + 1)]


@contextlib.contextmanager
def one_round(m):
    """with a single round the rounded scaling decides about a warning only"""
    mod = m.mod('clearsky')
    if m.symbolic:
        mod.round = lambda *a: 0
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        if m.symbolic:
            del mod.round


def detect(m, n, crits, step=1, kind='series', tight=None):
    """a sample is clear exactly when one of the windows around it meets every criterion"""
    meas, clear = m.reals('g', n, 1, 1500), m.reals('c', n, 1, 1500)
    th = dict(LOOSE)
    keys = {1: ['mean_diff'], 2: ['max_diff'], 3: ['lower_line_length', 'upper_line_length'], 4: ['var_diff'], 5: ['slope_dev']}
    for c in crits:
        for k in keys[c]:
            th[k] = m.real(k, *{'lower_line_length': (-50, 0), 'upper_line_length': (0, 50), 'var_diff': (0.001, 1)}.get(k, (1, 200))) \
                if tight is None else tight[k]
    t = times(n, step)
    S = (lambda v: pd.Series(v, index=t, dtype=object if m.symbolic else float)) if kind == 'series' else (lambda v: m.arr(v))
    kw = dict(times=t) if kind == 'array' else {}
    with one_round(m):
        r, comp, alpha = m.pv.clearsky.detect_clearsky(S(meas), S(clear), window_length=3 * step, max_iterations=1, return_components=True,
                                                       **th, **kw)
    got = [bool(x) for x in np.asarray(r)]
    if kind == 'series':
        m.true('index', isinstance(r, pd.Series) and list(r.index) == list(t))
    ok = [all(bool(f()) for i, f in enumerate(w) if i + 1 in crits) for w in flags(m, meas, clear, th, step)]
    want = [any(ok[k] for k in range(len(ok)) if k <= i < k + 3) for i in range(n)]
    for i in range(n):
        m.true('sample %d' % i, got[i] == want[i])
    m.obs('alpha', alpha)
    num = [i for i in range(n) if want[i]]
    if num:
        A, C = sum([meas[i] * clear[i] for i in num], 0), sum([clear[i]**2 for i in num], 0)
        m.eq('least squares scaling over the clear samples', alpha * C, A)
    else:
        m.eq('no scaling without clear samples', alpha, 1)


def nonneg(m, what):
    """missing values and dark clear-sky windows are never clear"""
    t = times(4)
    g, c = m.reals('g', 4, 1, 1500), m.reals('c', 4, 1, 1500)
    if what == 'missing':
        g[0] = m.np.float64('nan')
    elif what == 'missing clear sky':
        c[0] = m.np.float64('nan')
    elif what == 'dark':
        c[:3] = [m.np.float64(0.0)] * 3
    S = lambda v: pd.Series(v, index=t, dtype=object if m.symbolic else float)
    lim = m.real('mean_diff', 1, 200)
    with one_round(m):
        r, comp, alpha = m.pv.clearsky.detect_clearsky(S(g), S(c), window_length=3, max_iterations=1, return_components=True,
                                                       **dict(LOOSE, mean_diff=lim))
    got = [bool(x) for x in np.asarray(r)]
    mean = lambda v: (v[0] + v[1] + v[2]) / 3
    last = bool(m.np.abs(mean(g[1:]) - mean(c[1:])) < lim)
    m.true('first', not got[0])
    for i in (1, 2, 3):
        m.true('sample %d' % i, got[i] == last)
    if last:
        m.eq('scaling', alpha * sum([x**2 for x in c[1:]], 0), sum([x * y for x, y in zip(g[1:], c[1:])], 0))


def rounds(m, k):
    """a measurement that is a multiple of the clear sky is clear once the scaling is found"""
    c = m.reals('c', 3, 10, 1000)
    g = [k * x for x in c]
    t = times(3)
    S = lambda v: pd.Series(v, index=t, dtype=object if m.symbolic else float)
    lim = m.real('mean_diff', 1, 300)
    r, comp, alpha = m.pv.clearsky.detect_clearsky(S(g), S(c), window_length=3, return_components=True, **dict(LOOSE, mean_diff=lim))
    got = [bool(x) for x in np.asarray(r)]
    first = bool(m.np.abs((g[0] + g[1] + g[2]) / 3 - (c[0] + c[1] + c[2]) / 3) < lim)
    for i in range(3):
        m.true('sample %d' % i, got[i] == first)
    m.eq('scaling', alpha, k if first else 1)
    m.eq('mean difference after scaling', comp['mean_diff'].iloc[1], 0 if first else abs(k - 1) * (c[0] + c[1] + c[2]) / 3)


def rescaled(m):
    """the second round judges against the clear sky scaled by the first"""
    c, g = m.reals('c', 3, 100, 1000), m.reals('g', 3, 100, 1000)
    t = times(3)
    S = lambda v: pd.Series(v, index=t, dtype=object if m.symbolic else float)
    lim = m.real('max_diff', 1, 300)
    mod = m.mod('clearsky')
    if m.symbolic:
        mod.round = lambda *a: object()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r, comp, alpha = m.pv.clearsky.detect_clearsky(S(g), S(c), window_length=3, return_components=True, max_iterations=2,
                                                           **dict(LOOSE, max_diff=lim))
    finally:
        if m.symbolic:
            del mod.round
    top = lambda v: m.np.maximum(m.np.maximum(v[0], v[1]), v[2])
    first = bool(m.np.abs(top(g) - top(c)) < lim)
    if not first:
        for x in np.asarray(r):
            m.true('still not clear', not bool(x))
        m.eq('scaling', alpha, 1)
        return
    a = sum([x * y for x, y in zip(c, g)], 0) / sum([x * x for x in c], 0)
    second = bool(m.np.abs(top(g) - a * top(c)) < lim)
    for x in np.asarray(r):
        m.true('second round', bool(x) == second)


LIMITS = {1: (50, 75, 60, -45, 80, 0.005, 50), 5: (60, 75, 65, -45, 80, 0.01, 60), 15: (90, 75, 75, -45, 80, 0.032, 75),
          30: (120, 75, 90, -45, 80, 0.07, 96)}


def limits(m):
    """published thresholds for 1 to 30 minutes, linear in between"""
    x = m.real('interval', 1, 30)
    r = m.pv.clearsky._clearsky_get_threshold(x)
    ks = sorted(LIMITS)
    for lo, hi in zip(ks, ks[1:]):
        if x <= hi:
            w = (x - lo) / (hi - lo)
            for i, n in enumerate(('window_length', 'mean_diff', 'max_diff', 'lower_line_length', 'upper_line_length', 'var_diff', 'slope_dev')):
                m.eq(n, r[i], LIMITS[lo][i] * (1 - w) + LIMITS[hi][i] * w)
            return


def inferred(m, part):
    """inferred limits are the published ones: 30 minute samples, window of 4"""
    g, c = m.reals('g', 4, 100, 1000), m.reals('c', 4, 100, 1000)
    t = times(4, 30)
    S = lambda v: pd.Series(v, index=t, dtype=object if m.symbolic else float)
    k = dict(window_length=120, mean_diff=75, max_diff=90, lower_line_length=-45, upper_line_length=80, var_diff=0.07, slope_dev=96)
    with one_round(m):
        r = m.pv.clearsky.detect_clearsky(S(g), S(c), infer_limits=True, max_iterations=1)
        e = m.pv.clearsky.detect_clearsky(S(g), S(c), max_iterations=1, **k)
    for x, y in zip(np.asarray(r), np.asarray(e)):
        m.true('same', bool(x) == bool(y))


def errors(m):
    x = m.real('x', 1, 1000)
    f = m.pv.clearsky.detect_clearsky
    S = lambda n, t: pd.Series([x] * n, index=t)
    t = times(4)
    m.raises('window too short', ValueError, f, S(4, t), S(4, t), window_length=2)
    m.raises('series too short', ValueError, f, S(4, t), S(4, t), window_length=5)
    m.raises('no times', ValueError, f, m.arr([x] * 4), m.arr([x] * 4))
    m.raises('interval', ValueError, f, S(4, times(4, 45)), S(4, times(4, 45)), infer_limits=True, window_length=180)
    u = pd.DatetimeIndex(['2021-06-01 12:00', '2021-06-01 12:01', '2021-06-01 12:03', '2021-06-01 12:04'])
    m.raises('uneven', NotImplementedError, f, S(4, u), S(4, u), window_length=3)


def jobs(tier):
    for c in (1, 2, 3, 4, 5):
        for k in ('series', 'array'):
            yield Job('criterion %d %s' % (c, k), detect, params=dict(n=4, crits=[c], kind=k), merge=True)
        yield Job('criterion %d, 5 samples' % c, detect, params=dict(n=5, crits=[c]), merge=True)
        yield Job('criterion %d, 2 minutes' % c, detect, params=dict(n=4, crits=[c], step=2), merge=True)
    for cs in ([1, 2], [1, 5], [2, 4], [3, 5], [4, 5]):
        yield Job('criteria %s' % cs, detect, params=dict(n=4, crits=cs), merge=True)
    tight = dict(mean_diff=75.0, max_diff=60.0, lower_line_length=-5.0, upper_line_length=10.0, var_diff=0.005, slope_dev=8.0)
    yield Job('all criteria', detect, params=dict(n=3, crits=[1, 2, 3, 4, 5], tight=tight), merge=True)
    for w in ('missing', 'missing clear sky', 'dark'):
        yield Job(w, nonneg, params=dict(what=w), merge=True)
    for k in (0.75, 1.25):
        yield Job('rounds %s' % k, rounds, params=dict(k=k), merge=True)
    yield Job('second round', rescaled, merge=True)
    yield Job('published limits', limits)
    yield Job('inferred limits', inferred, params=dict(part=''), merge=True)
    yield Job('errors', errors)
