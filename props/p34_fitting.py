import numpy as np
from scipy import constants
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P34'
D = 'ivtools.sdm.desoto.'
FUNCTIONS = ['ivtools.utils.' + f for f in ('_numdiff', '_schumaker_qspline')] + [
    'ivtools.sde.' + f for f in ('_sandia_simple_params', '_calc_I0', '_find_mp', '_cocontent')] + [
    D + f for f in ('fit_desoto', '_system_of_equations_desoto', 'fit_desoto_batzelis')]
BOUNDS = ('polynomials with arbitrary coefficients up to degree 4 on 6-point grids (uneven, and of any spacing); splines through 3 arbitrary points on uneven '
          'grids; splines of 6 to 12 knots with arbitrary coefficients (co-content); arbitrary single-diode parameters within physical ranges')
OUTSIDE = 'regression steps inside LAPACK (lstsq, eig), convergence of the iterative fits, measured noise'


def poly(c, x):
    return sum(k * x**i for i, k in enumerate(c))


def numdiff(m, grid):
    """first derivative of a quartic is exact in the interior and missing at the two points at each end"""
    c = m.reals('c', 5, -5, 5)
    x0, h = m.real('x0', -5, 5), 1.0
    if grid == 'scaled':
        c = c[:3]
        h = m.real('h', 0.01, 10)
    x = [x0 + h * g for g in ([0.0, 1.0, 2.5, 3.0, 4.0, 5.5] if grid == 'uneven' else [0.0, 1.0, 2.0, 3.0, 4.0, 5.0])]
    if grid == 'uneven':
        x = [v - x0 for v in x]
    df, df2 = m.pv.ivtools.utils._numdiff(m.arr(x), m.arr([poly(c, v) for v in x]))
    m.true('lengths', len(df) == 6 and len(df2) == 6)
    for i in (0, 1, 4, 5):
        m.nan('first derivative at the ends', df[i])
        m.nan('second derivative at the ends', df2[i])
    for i in (2, 3):
        m.eq('first derivative', df[i], sum(j * c[j] * x[i]**(j - 1) for j in range(1, len(c))), rtol=1e-7, atol=1e-7)


def numdiff2(m):
    """second derivative of a parabola on the grid 0..4"""
    a = m.real('a', 1, 2)
    x = np.arange(5.0)
    _, df2 = m.pv.ivtools.utils._numdiff(x, m.arr([a * v * v for v in x]))
    m.eq('second derivative of a parabola', df2[2], 2 * a)


def spline(m, shape):
    x0 = m.real('x0', 0, 5)
    x = [x0, x0 + 1.0, x0 + 2.5]
    if shape == 'falling':
        y0, d1, d2 = m.real('y0', 1, 10), m.real('d1', 0, 3), m.real('d2', 0, 3)
        y = [y0, y0 - d1, y0 - d1 - d2]
    else:
        y = m.reals('y', 3, -5, 5)
    t, c, yh, flag = m.pv.ivtools.utils._schumaker_qspline(m.arr(x), m.arr(y))
    n = len(t)
    m.true('shapes', len(c) == n - 1 and len(yh) == n and len(flag) == n)
    own = [i for i in range(n) if not flag[i]]
    m.true('every data point is a knot', len(own) == 3)
    for i, k in enumerate(own):
        m.eq('knot', t[k], x[i])
        m.eq('value', yh[k], y[i])
    for i in range(n - 1):
        m.true('ordered', t[i] < t[i + 1])
        d = t[i + 1] - t[i]
        m.eq('left value', c[i][2], yh[i])
        m.eq('continuous', c[i][0] * d * d + c[i][1] * d + c[i][2], yh[i + 1], rtol=1e-7, atol=1e-7)
        if i + 2 < n:
            m.eq('smooth', 2 * c[i][0] * d + c[i][1], c[i + 1][1], rtol=1e-4, atol=1e-4)
        if shape == 'falling':
            m.le('falls', c[i][1], 1e-5)
            m.le('falls', 2 * c[i][0] * d + c[i][1], 1e-5)


def cocontent(m, n, added):
    """integral of isc - i from the first voltage to each data point"""
    v = [0.0, 1.0, 1.5, 2.0, 3.0, 4.5, 5.0, 6.0, 6.5, 8.0, 8.5, 9.0][:n]
    c = [m.reals('c%d' % i, 3, -5, 5) for i in range(n - 1)]
    isc = m.real('isc', 0, 10)
    r = m.pv.ivtools.sde._cocontent(np.array(v), m.np.array(c), isc, np.array([i in added for i in range(n)], dtype=float))
    total, want = 0, [0]
    for i in range(n - 1):
        d = v[i + 1] - v[i]
        total = total + isc * d - (c[i][0] * d**3 / 3 + c[i][1] * d**2 / 2 + c[i][2] * d)
        want.append(total)
    want = [w for i, w in enumerate(want) if i not in added]
    m.true('data points', len(r) == len(want))
    for a, b in zip(r, want):
        m.eq('co-content', a, b)


def find_mp(m):
    v, i = m.reals('v', 3, 0, 10), m.reals('i', 3, 0, 10)
    a, b = m.pv.ivtools.sde._find_mp(m.arr(v), m.arr(i))
    m.true('a point of the curve', (a == v[0]) & (b == i[0]) | (a == v[1]) & (b == i[1]) | (a == v[2]) & (b == i[2]))
    for k in range(3):
        m.le('largest power', v[k] * i[k], a * b)


def simple(m, which):
    """the conversion from regression coefficients inverts the single diode equation"""
    iph, rs, rsh, n = m.real('iph', 1, 10), m.real('rs', 0, 1), m.real('rsh', 10, 1000), m.real('n', 1, 3)
    voc, vd = m.real('voc', 20, 50), m.real('vd', 10, 40)
    m.assume(abs(voc - vd) < 10)
    g = 1 / rsh
    E = lambda x: m.np.expm1(x)
    io = (iph - voc / rsh) / E(voc / n)
    m.assume(io > 0)
    imp = iph - io * E(vd / n) - vd / rsh
    m.assume(imp > 0.01)
    vmp = vd - rs * imp
    b0, b1, b3, b4 = iph / (1 + g * rs), g / (1 + g * rs), 1 / n, rs / n
    r = m.pv.ivtools.sde._sandia_simple_params(b0, b1, b3, b4, vmp, imp, voc)
    for name, a, b in zip(('photocurrent', 'saturation current', 'series resistance', 'shunt resistance', 'thermal voltage'), r, (iph, io, rs, rsh, n)):
        if name != 'saturation current':
            m.eq(name, a, b)
        else:
            m.eq(name, a / io, 1, rtol=1e-6, atol=1e-6)


def simple_choice(m):
    """a negative estimate of the saturation current is not used; none left is an error"""
    f = m.pv.ivtools.sde._sandia_simple_params
    vm, vo = m.real('vm', -1, 1), m.real('vo', -1, 1)
    m.stub('ivtools.sde', '_calc_I0', lambda v, i, iph, gsh, rs, n: vo if not isinstance(i, type(vm)) and i == 0 else vm)
    args = (8.0, 0.01, 0.5, 0.1, 30.0, m.real('imp', 5, 7), 40.0)
    if (vm <= 0) & (vo <= 0):
        m.raises('undetermined', RuntimeError, f, *args)
    else:
        io = f(*args)[1]
        m.eq('saturation current', io, (vm + vo) / 2 if (vm > 0) & (vo > 0) else vm if vm > 0 else vo)


def desoto_system(m):
    """the residuals are the single diode equation at the three points, dP/dV and the equation at the raised temperature"""
    f = m.pv.ivtools.sdm.desoto._system_of_equations_desoto
    isc, voc, imp, vmp = m.real('isc', 1, 12), m.real('voc', 20, 60), m.real('imp', 1, 11), m.real('vmp', 15, 50)
    bet, alp, Eg, dEg, T = m.real('beta', -0.3, 0), m.real('alpha', 0, 0.01), m.real('Eg', 1, 1.5), m.real('dEg', -0.001, 0), m.real('T', 290, 305)
    IL, Io, Rs, Rsh, a = m.real('IL', 1, 12), m.real('Io', 1e-12, 1e-6), m.real('Rs', 0, 1), m.real('Rsh', 10, 1000), m.real('a', 0.5, 3)
    k = 8.617333262e-05
    y = f([IL, Io, Rs, Rsh, a], (isc, voc, imp, vmp, bet, alp, Eg, dEg, T, k))
    E = m.np.exp

    def res(v, i, IL=IL, Io=Io, a=a):
        return i - IL + Io * m.np.expm1((v + i * Rs) / a) + (v + i * Rs) / Rsh
    m.eq('short circuit', y[0], res(0, isc))
    m.eq('open circuit', y[1], res(voc, 0))
    m.eq('maximum power', y[2], res(vmp, imp))
    g = Io / a * E((vmp + imp * Rs) / a) + 1 / Rsh
    m.eq('slope of power', y[3], imp - vmp * g / (1 + Rs * g))
    t = T + 2
    Eg2 = Eg * (1 + dEg * 2)
    Io2 = Io * (t / T)**3 * E(1 / k * (Eg / T - Eg2 / t))
    m.eq('raised temperature', y[4], res(voc + 2 * bet, 0, IL + 2 * alp, Io2, a * t / T))


def desoto_fit(m, guess, success):
    spec = dict(v_mp=m.real('vmp', 15, 50), i_mp=m.real('imp', 1, 7), v_oc=m.real('voc', 20, 60), i_sc=m.real('isc', 8, 12),
                alpha_sc=m.real('alpha', 0, 0.01), beta_voc=m.real('beta', -0.3, 0), cells_in_series=60)
    kw = dict(EgRef=1.2, dEgdT=-0.0003, temp_ref=30, irrad_ref=900) if guess else {}
    sol = m.reals('sol', 5, 0.1, 10)
    seen = []

    class Result:
        x, message = m.arr(sol), 'no'

    Result.success = success

    def root(fun, x0, args=(), **k):
        seen.append((fun, list(x0), args, k))
        return Result
    m.stub('ivtools.sdm.desoto', 'optimize', type('O', (), {'root': staticmethod(root)}))
    init = {}
    if guess:
        init = {'Rs_0': m.real('rs0', 0, 1), 'Rsh_0': m.real('rsh0', 10, 1000)}
        kw.update(init_guess=init, root_kwargs=dict(method='lm'))
    f = m.pv.ivtools.sdm.desoto.fit_desoto
    if not success:
        m.raises('failure', RuntimeError, f, **spec, **kw)
        return
    r, res = f(**spec, **kw)
    m.true('one system', len(seen) == 1 and seen[0][3] == (dict(method='lm') if guess else {}))
    Tref = (30 if guess else 25) + 273.15
    k = constants.value('Boltzmann constant in eV/K')
    a0 = 1.5 * k * Tref * 60
    i0 = spec['i_sc'] * m.np.exp(-spec['v_oc'] / a0)
    start = [spec['i_sc'], i0, init.get('Rs_0', (a0 * m.np.log1p((spec['i_sc'] - spec['i_mp']) / i0) - spec['v_mp']) / spec['i_mp']),
             init.get('Rsh_0', 100.0), a0]
    for n, u, w in zip(('IL', 'Io', 'Rs', 'Rsh', 'a'), seen[0][1], start):
        m.eq('start ' + n, u, w)
    want = [spec['i_sc'], spec['v_oc'], spec['i_mp'], spec['v_mp'], spec['beta_voc'], spec['alpha_sc'], kw.get('EgRef', 1.121), kw.get('dEgdT', -0.0002677), Tref, k]
    got = seen[0][2][0]
    m.true('specifications', len(got) == 10)
    for i in range(10):
        m.eq('specification %d' % i, got[i], want[i])
    for n, w in zip(('I_L_ref', 'I_o_ref', 'R_s', 'R_sh_ref', 'a_ref'), sol):
        m.eq(n, r[n], w)
    for n, w in (('alpha_sc', spec['alpha_sc']), ('EgRef', want[6]), ('dEgdT', want[7]), ('irrad_ref', 900 if guess else 1000), ('temp_ref', 30 if guess else 25)):
        m.eq(n, r[n], w)


def desoto_names(m):
    m.raises('unknown guess', ValueError, m.pv.ivtools.sdm.desoto.fit_desoto, 30.0, m.real('imp', 5, 7), 40.0, 8.0, 0.001, -0.1, 60, init_guess={'IL': 8})


def batzelis(m):
    v, i, voc, isc = m.real('vmp', 15, 50), m.real('imp', 1, 7), m.real('voc', 20, 60), m.real('isc', 8, 12)
    al, be = m.real('alpha', 0, 0.01), m.real('beta', -0.3, -0.01)
    m.stub('ivtools.sdm.desoto', '_lambertw_pvlib', lambda x: m.uf('W', x, lo=5, hi=60))
    d = (1 - be / voc * 298.15) / (50.1 - al / isc * 298.15)
    w = m.uf('W', m.np.exp(1 / d + 1), lo=5, hi=60)
    a = d * voc
    m.assume(isc * (1 - 1 / w) - i > 0.01)
    r = m.pv.ivtools.sdm.desoto.fit_desoto_batzelis(v, i, voc, isc, al, be)
    rs, rsh = (a * (w - 1) - v) / i, a * (w - 1) / (isc * (1 - 1 / w) - i)
    m.assume(rsh > 0)
    il = (1 + rs / rsh) * isc
    for n, e in (('a_ref', a), ('R_s', rs), ('R_sh_ref', rsh), ('I_L_ref', il), ('I_o_ref', il * m.np.exp(-1 / d)), ('alpha_sc', al)):
        m.eq(n, r[n], e)


def jobs(tier):
    for g in ('even', 'uneven', 'scaled'):
        yield Job('numdiff ' + g, numdiff, params=dict(grid=g))
    yield Job('numdiff second', numdiff2)
    for s in ('any', 'falling'):
        yield Job('spline ' + s, spline, params=dict(shape=s))
    for n, add in ((6, ()), (8, (2, 5)), (10, (3, 4, 7)), (12, (1, 5, 6, 10))):
        yield Job('co-content %d' % n, cocontent, params=dict(n=n, added=add))
    yield Job('maximum power point', find_mp)
    yield Job('simple fit', simple, params=dict(which=0))
    yield Job('simple fit choice', simple_choice)
    yield Job('desoto system', desoto_system)
    for g in (False, True):
        yield Job('desoto fit%s' % (' options' if g else ''), desoto_fit, params=dict(guess=g, success=True))
    yield Job('desoto failure', desoto_fit, params=dict(guess=False, success=False))
    yield Job('desoto names', desoto_names)
    yield Job('batzelis', batzelis)
