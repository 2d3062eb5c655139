import datetime
import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P21'
FUNCTIONS = ['soiling.kimber', 'soiling.hsu']
BOUNDS = ('rainfall histories of 4 to 6 steps (daily, 12-hourly, 6-hourly and hourly); every rainfall value, threshold, loss rate, initial and maximum soiling, '
          'particulate concentrations, deposition velocities and tilt symbolic; accumulation windows of 1 to 4 steps, grace periods of 1 to 3 steps, '
          'no, one and two manual washes at every position')
OUTSIDE = 'longer histories; missing (NaN) rainfall'


def ser(m, nm, index, lo, hi):
    v = [m.real('%s_%d' % (nm, i), lo, hi) for i in range(len(index))]
    return pd.Series(m.arr(v), index=index, dtype=object if m.symbolic else float), v


def window(index, i, period):
    return [j for j in range(i + 1) if index[j] > index[i] - period]


def kimber(m, n, hours, accum, grace, wash=(), default=False, tz=None):
    index = pd.date_range('2020-03-01', periods=n, freq='%dh' % hours, tz=tz)
    R, r = ser(m, 'rain', index, 0, 40)
    kw, thr, rate, mx, init = {}, 6, .0015, .3, 0
    if not default:
        thr, rate, mx, init = m.real('threshold', 0, 20), m.real('rate', 0, .1), m.real('max', 0, .5), m.real('initial', 0, .3)
        kw = dict(cleaning_threshold=thr, soiling_loss_rate=rate, max_soiling=mx, initial_soiling=init, grace_period=grace, rain_accum_period=accum)
    else:
        accum, grace = 24, 14
    if wash:
        kw['manual_wash_dates'] = [index[i].date() for i in wash]
    s = m.pv.soiling.kimber(R, **kw)
    m.true('index', s.index.equals(index))
    events, cur = [], None
    for i in range(n):
        events.append(bool(sum((r[j] for j in window(index, i, pd.Timedelta(hours=accum))), 0.0) > thr))
        damp = any(events[j] for j in window(index, i, pd.Timedelta(days=grace)))
        washed = any(index[i] == pd.Timestamp(index[w].date(), tz=tz) for w in wash)
        if damp or washed:
            cur = 0.0
        else:
            cur = init if i == 0 else cur + rate * (hours / 24)
        x = s.iloc[i]
        m.eq('soiling at step %d' % i, x, cur if cur < mx else mx)
        m.between('soiling', x, 0, mx)
        if damp or washed:
            m.eq('clean', x, 0)
        elif i:
            m.le('soiling never falls without cleaning', s.iloc[i - 1], x)
        m.obs('soiling', x)


def hsu(m, n, minutes, accum, series=False, default=False, tilt_series=False):
    index = pd.date_range('2020-03-01', periods=n, freq='%dmin' % minutes)
    if minutes == 45:
        index = index.delete(2)
        n -= 1
    dt = [(index[i] - index[i - 1]).total_seconds() for i in range(1, n)]
    dt = [dt[0]] + dt
    R, r = ser(m, 'rain', index, 0, 40)
    thr = m.real('threshold', 0, 20)
    if series:
        P2, p2 = ser(m, 'pm2', index, 0, 1e-4)
        P10, p10 = ser(m, 'pm10', index, 0, 1e-4)
        P2, P10 = P2.to_numpy(), P10.to_numpy()
        if m.symbolic:
            P2, P10 = m.arr(p2), m.arr(p10)
    else:
        P2, P10 = m.real('pm2', 0, 1e-4), m.real('pm10', 0, 1e-4)
        p2, p10 = [P2] * n, [P10] * n
    if tilt_series:
        tl = [m.real('tilt_%d' % i, 0, 90) for i in range(n)]
        tilt = m.arr(tl)
    else:
        tilt = m.real('tilt', 0, 90)
        tl = [tilt] * n
    kw, v2, v10 = {}, .0009, .004
    if not default:
        v2, v10 = m.real('v2', 0, .01), m.real('v10', 0, .01)
        kw = dict(depo_veloc={'2_5': v2, '10': v10}, rain_accum_period=pd.Timedelta(minutes=accum))
    else:
        accum = 60
    case = [bool(p10[i] > p2[i]) for i in range(n if series else 1)] * (1 if series else n)
    s = m.pv.soiling.hsu(R, thr, tilt, P2, P10, **kw)
    m.true('index', s.index.equals(index))
    mass = 0.0
    for i in range(n):
        clean = bool(sum((r[j] for j in window(index, i, pd.Timedelta(minutes=accum))), 0.0) >= thr)
        coarse = (p10[i] - p2[i]) * v10 if case[i] else 0.0
        mass = 0.0 if clean else mass + (p2[i] * v2 + coarse) * dt[i] * m.cosd(tl[i])
        x = s.iloc[i]
        if clean:
            m.eq('clean', x, 1)
        else:
            e = m.np.abs(mass) ** .8473 if not m.symbolic else mass ** .8473
            m.eq('soiling ratio at step %d' % i, x, 1 - .3437 * erf(m, .17 * e))
            if i:
                m.le('never recovers without rain', x, s.iloc[i - 1])
        m.between('soiling ratio', x, 1 - .3437, 1)
        m.obs('ratio', x)


def erf(m, x):
    return m.mod('soiling').erf(x)


def jobs(tier):
    deep = tier != 'quick'
    for hours, accum, grace in ((24, 24, 1), (24, 48, 2), (24, 24, 3), (12, 24, 1), (24, 72, 1), (6, 12, 1), (12, 36, 2), (6, 24, 1)):
        n = 5 if deep or (accum <= 24 and hours == 24) else 4
        yield Job('Kimber, %d h steps, %d h rain, %d d grace, %d steps' % (hours, accum, grace, n), kimber,
                  params=dict(n=n, hours=hours, accum=accum, grace=grace, tz='Etc/GMT+7' if hours == 12 else None), max_paths=4000)
    for wash in [(i,) for i in range(4)] + [(1, 3), (0, 2)]:
        yield Job('Kimber, washed at %s' % (wash,), kimber, params=dict(n=4, hours=24, accum=24, grace=1, wash=wash, tz='Etc/GMT+7' if len(wash) > 1 else None), max_paths=4000)
    yield Job('Kimber, 12 h steps, washed', kimber, params=dict(n=5, hours=12, accum=24, grace=1, wash=(2,)), max_paths=4000)
    yield Job('Kimber, defaults', kimber, params=dict(n=5, hours=24, accum=24, grace=14, default=True), max_paths=4000)
    yield Job('Kimber, defaults, washed', kimber, params=dict(n=4, hours=24, accum=24, grace=14, default=True, wash=(2,)), max_paths=4000)
    for minutes, accum in ((60, 60), (30, 60), (60, 180), (45, 60), (60, 1440)):
        n = 5 if deep else 4
        yield Job('HSU, %d min steps, %d min rain' % (minutes, accum), hsu, params=dict(n=n, minutes=minutes, accum=accum), max_paths=4000)
    yield Job('HSU, particulate series', hsu, params=dict(n=4 if deep else 3, minutes=60, accum=60, series=True), max_paths=4000)
    yield Job('HSU, tilt series', hsu, params=dict(n=4 if deep else 3, minutes=60, accum=60, tilt_series=True), max_paths=4000)
    yield Job('HSU, defaults', hsu, params=dict(n=4, minutes=30, accum=60, default=True), max_paths=4000)
