from pvsym.cli import Job
from props.p10_inverter import sandia_inv, sandia_formula
PROPERTY = 'P11'
FUNCTIONS = ['inverter.sandia_multi', 'inverter.pvwatts_multi', 'inverter._sandia_eff', 'inverter._sandia_limits']
BOUNDS = '1 to 3 MPPT inputs, scalars and arrays of 2; total DC power in (0.01, 2e6]; parameters as in P10'
OUTSIDE = 'a total DC power of exactly 0 given as Python floats (0/0)'


def get(m, n, k, kind):
    vs = [m.reals('v%d_' % i, k, 1, 2000) for i in range(n)]
    ps = [m.reals('p%d_' % i, k, 0, 1e6) for i in range(n)]
    if kind == 'scalar':
        return vs, ps, tuple(v[0] for v in vs), tuple(p[0] for p in ps)
    return vs, ps, [m.arr(v) for v in vs], [m.arr(p) for p in ps]


def multi(m, n, k, kind, conc=None):
    inv = sandia_inv(m, conc=conc)
    vs, ps, V, P = get(m, n, k, kind)
    fs = []
    for j in range(k):
        tot = sum(p[j] for p in ps)
        m.assume(tot > 0.01)
        f = 0
        for i in range(n):
            A, B, e = sandia_formula(inv, vs[i][j], tot)
            m.assume(A - B > 0.1)
            f = f + ps[i][j] / tot * e
        fs.append((tot, f))
    r = m.pv.inverter.sandia_multi(V, P, inv)
    m.obs('ac', r)
    r = [r] if kind == 'scalar' else list(r)
    if n > 1:
        rr = m.pv.inverter.sandia_multi(V[::-1], P[::-1], inv)
        m.eq('multi: order of the inputs does not matter', rr, r)
    if n == 1:
        m.eq('multi: one input is the single-input model', m.pv.inverter.sandia(V[0], P[0], inv), r)
    for x, (tot, f) in zip(r, fs):
        m.le('multi: AC power <= Paco', x, inv['Paco'])
        if tot < inv['Pso']:
            m.eq('multi: night tare', x, -abs(inv['Pnt']))
        elif f <= inv['Paco']:
            m.eq('multi: power-weighted mean of the single-input model at total power', x, f)
        else:
            m.eq('multi: clipped at Paco', x, inv['Paco'])


def equal_v(m, n):
    inv = sandia_inv(m)
    v = m.real('v', 1, 2000)
    ps = m.reals('p', n, 0, 1e6)
    tot = sum(ps)
    m.assume(tot > 0.01)
    A, B, f = sandia_formula(inv, v, tot)
    m.assume(A - B > 0.1)
    r = m.pv.inverter.sandia_multi((v,) * n, tuple(ps), inv)
    m.eq('multi: equal voltages give the single-input result of the total', r, m.pv.inverter.sandia(v, tot, inv))


def lengths(m, nv, np_):
    inv = sandia_inv(m)
    V, P = tuple(m.reals('v', nv, 1, 2000)), tuple(m.reals('p', np_, 1, 1e5))
    m.raises('multi: different numbers of inputs are rejected', ValueError, m.pv.inverter.sandia_multi, V, P, inv)


def pvw(m, n, k):
    pdc0 = m.real('pdc0', 1, 1e6)
    nom, ref = m.real('nom', 0.5, 1), m.real('ref', 0.5, 1)
    ps = [m.reals('p%d_' % i, k, -10, 1e6) for i in range(n)]
    P = tuple(p[0] for p in ps) if k == 1 else [m.arr(p) for p in ps]
    r = m.pv.inverter.pvwatts_multi(P, pdc0, nom, ref)
    m.obs('ac', r)
    tot = sum(p[0] for p in ps) if k == 1 else m.arr([sum(p[j] for p in ps) for j in range(k)])
    m.eq('pvwatts multi: the single-input model of the total', r, m.pv.inverter.pvwatts(tot, pdc0, nom, ref))
    m.between('pvwatts multi: within rating', r, 0, nom * pdc0, 1e-6)


def jobs(tier):
    c3 = (2e-5, 1.5e-3, -4e-4)
    for n in (1, 2, 3):
        yield Job('sandia_multi %d scalar' % n, multi, params=dict(n=n, k=1, kind='scalar', conc=c3 if n == 3 else None))
        yield Job('sandia_multi equal voltages %d' % n, equal_v, params=dict(n=n))
        yield Job('pvwatts_multi %d' % n, pvw, params=dict(n=n, k=1))
    yield Job('sandia_multi 2 arrays', multi, params=dict(n=2, k=2, kind='array', conc=c3))
    yield Job('pvwatts_multi 2 arrays', pvw, params=dict(n=2, k=2))
    for a, b in ((1, 2), (2, 1), (3, 2), (2, 3)):
        yield Job('lengths %d/%d' % (a, b), lengths, params=dict(nv=a, np_=b))
