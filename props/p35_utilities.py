import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P35'
FUNCTIONS = ['tools.' + f for f in ('cosd', 'sind', 'tand', 'asind', 'acosd', 'atand', '_golden_sect_DataFrame', '_first_order_centered_difference',
                                    '_build_kwargs', '_build_args', '_scalar_out', '_array_out', 'get_pandas_index', 'normalize_max2one')]
BOUNDS = ('angles within 720 degrees, all sines and cosines; search over brackets of width 1 to 8 and any offset with tolerances that take up to 8 steps, '
          'maximum anywhere inside or outside the bracket, 1 or 2 problems at once; derivatives of arbitrary cubics; up to 3 keys in every combination of presence')
OUTSIDE = 'calendar and time-zone conversions (concrete in the standard library); the number of steps of the search for smaller tolerances'


def trig(m):
    T = m.pv.tools
    a = m.real('a', -720, 720)
    r = m.np.radians(a)
    m.eq('cosine', T.cosd(a), m.np.cos(r))
    m.eq('sine', T.sind(a), m.np.sin(r))
    m.eq('pythagoras', T.cosd(a)**2 + T.sind(a)**2, 1)
    b = m.real('b', -89, 89)
    m.eq('tangent', T.tand(b) * T.cosd(b), T.sind(b))


def inverse(m, f):
    T = m.pv.tools
    if f == 'tan':
        x = m.real('x', -50, 50)
        r = T.atand(x)
        m.eq('arctangent', r, m.np.degrees(m.np.arctan(x)))
        m.between('range', r, -90, 90)
        return
    x = m.real('x', -1, 1)
    if f == 'sin':
        r = T.asind(x)
        m.eq('arcsine', T.sind(r), x)
        m.between('range', r, -90, 90)
    else:
        r = T.acosd(x)
        m.eq('arccosine', T.cosd(r), x)
        m.between('range', r, 0, 180)


def tent(m, x, c, a, b):
    return m.np.minimum(a * (x - c), b * (c - x))


def golden(m, width, atol, rows, shape):
    """the maximum of a tent with any slopes, any peak and any offset"""
    lo = [m.real('lo%d' % i, -5, 5) for i in range(rows)] if shape == 'offset' else [0.0] * rows
    c = [m.real('c%d' % i, -2, width + 2) for i in range(rows)]
    a, b = (m.real('a', 0.1, 10), m.real('b', 0.1, 10)) if shape == 'slopes' else (1, 1)
    df = pd.DataFrame({'c': [x + y for x, y in zip(c, lo)]})

    def func(d, col):
        return pd.Series([tent(m, x, y, a, b) for x, y in zip(d[col], d['c'])])
    before = list(df['c'])
    hi = [x + width for x in lo]
    f, x = m.pv.tools._golden_sect_DataFrame(df, pd.Series(lo), pd.Series(hi), func, atol=atol)
    m.true('parameters untouched', list(df.columns) == ['c'] and len(f) == rows and len(x) == rows)
    for i in range(rows):
        m.eq('parameter', df['c'].iloc[i], before[i])
        peak = m.np.minimum(m.np.maximum(before[i], lo[i]), hi[i])
        m.between('within the tolerance of the maximum', x[i] - peak, -2.12 * atol, 2.12 * atol)
        m.between('inside the bracket', x[i], lo[i], hi[i])
        m.eq('value there', f.iloc[i], tent(m, x[i], before[i], a, b))


def golden_nan(m):
    """a problem without a value is missing and leaves the other as it is"""
    c = m.real('c', 0, 1)
    df = pd.DataFrame({'c': [np.nan, c]})

    def func(d, col):
        return pd.Series([x - x + np.nan if i == 0 else tent(m, x, c, 1, 1) for i, x in enumerate(d[col])])
    f, x = m.pv.tools._golden_sect_DataFrame(df, pd.Series([0.0, 0.0]), pd.Series([1.0, 1.0]), func, atol=0.05)
    m.nan('missing', x[0])
    m.nan('missing value', f.iloc[0])
    m.between('other', x[1] - c, -0.106, 0.106)


def golden_order(m):
    lo, hi, d = m.reals('lo', 2, -5, 5), m.reals('hi', 2, -5, 5), m.real('d', 0.001, 5)
    m.assume(lo[0] <= hi[0])
    m.raises('upper below lower', ValueError, m.pv.tools._golden_sect_DataFrame, pd.DataFrame({'c': [0.0, 0.0]}), pd.Series([lo[0], hi[1] + d]),
             pd.Series([hi[0], hi[1]]), lambda d, c: d[c])


def derivative(m):
    a, b, c, x, h = m.real('a', -5, 5), m.real('b', -5, 5), m.real('c', -5, 5), m.real('x', -5, 5), m.real('h', 1e-3, 1)
    k = m.real('k', -5, 5)
    f = lambda t, p, q: a + b * t + c * t * t + p * t**3 + q
    r = m.pv.tools._first_order_centered_difference(f, x, h, args=(k, 7))
    m.eq('derivative', r, b + 2 * c * x + k * (3 * x * x + h * h))


def keys(m):
    """selects exactly the keys that are there"""
    T = m.pv.tools
    names = ['p', 'q', 'r']
    v = {n: m.real(n, -5, 5) for n in names}
    there = [n for n in names if m.flag('has ' + n)]
    given = {n: v[n] for n in there}
    given['other'] = m.real('other', -5, 5)
    r = T._build_kwargs(names, given)
    m.true('keys', sorted(r) == there)
    for n in there:
        m.eq('value of ' + n, r[n], v[n])
    if len(there) == 3:
        for x, n in zip(T._build_args(names[::-1], given, 'x'), names[::-1]):
            m.eq('argument ' + n, x, v[n])
    else:
        m.raises('missing', KeyError, T._build_args, names, given, 'x')


def containers(m):
    T = m.pv.tools
    a = m.reals('a', 2, -5, 5)
    s = pd.Series(a, index=['u', 'v'])
    m.eq('scalar', T._scalar_out(a[0]), a[0])
    m.eq('one element', T._scalar_out(m.arr([a[1]])), a[1])
    r = T._array_out(s)
    m.true('array', isinstance(r, np.ndarray) and len(r) == 2)
    for i in range(2):
        m.eq('element', r[i], a[i])
    m.true('index', list(T.get_pandas_index(1.0, m.arr(a), s, pd.Series([1.0]))) == ['u', 'v'])
    m.true('no index', T.get_pandas_index(1.0, m.arr(a)) is None)


def normalized(m, kind):
    T = m.pv.tools
    if kind == 'series':
        a = m.reals('a', 3, -5, 5)
        m.assume(abs(a[0]) > 0.01)
        r = T.normalize_max2one(pd.Series(a, index=[3, 5, 8]))
        m.true('index', list(r.index) == [3, 5, 8])
        rows, got = [a], [list(r)]
    elif kind == 'array':
        a = m.reals('a', 3, -5, 5)
        m.assume(abs(a[0]) > 0.01)
        rows, got = [a], [T.normalize_max2one(m.arr(a))]
    else:
        a = [m.reals('a', 2, -5, 5), m.reals('b', 2, -5, 5)]
        for x in a:
            m.assume(abs(x[0]) > 0.01)
        r = T.normalize_max2one(m.np.array(a))
        rows, got = a, [r[0], r[1]]
    for x, y in zip(rows, got):
        big = m.np.max(m.np.absolute(m.arr(x)))
        for p, q in zip(x, y):
            m.eq('scaled', q, p / big)
            m.between('range', q, -1, 1)


def jobs(tier):
    yield Job('trig', trig)
    for f in ('sin', 'cos', 'tan'):
        yield Job('inverse ' + f, inverse, params=dict(f=f))
    for s, w, t, r in (('offset', 1.0, 0.1, 1), ('plain', 1.0, 0.02, 1), ('plain', 8.0, 0.1, 1), ('slopes', 1.0, 0.1, 1), ('plain', 1.0, 0.12, 2)):
        yield Job('golden %s %g %g %d' % (s, w, t, r), golden, params=dict(width=w, atol=t, rows=r, shape=s), max_paths=3000)
    yield Job('golden missing', golden_nan)
    yield Job('golden order', golden_order)
    yield Job('derivative', derivative)
    yield Job('keys', keys)
    yield Job('containers', containers)
    for k in ('array', 'series', 'matrix'):
        yield Job('normalized ' + k, normalized, params=dict(kind=k))
