from pvsym.cli import Job
PROPERTY = 'P10'
FUNCTIONS = ['inverter.sandia', 'inverter._sandia_eff', 'inverter._sandia_limits', 'inverter.adr', 'inverter.pvwatts']
BOUNDS = ('scalars and length-1/2 arrays; v in [-50, 2000] V, p in [-10, 2e6] W; Sandia: Paco in [1, 1e6], |C0..C3| <= 0.01, '
          '0 <= Pso < Pdco, A-B > 0.1; ADR: loss coefficients in [-1, 1], nominal power [1, 1e6]; '
          'PVWatts: pdc0 in [1, 1e6], efficiencies in [0.5, 1]')
OUTSIDE = 'parameter sets with A = B (division by zero); fit_sandia'


def sandia_inv(m, q='', conc=None):
    inv = dict(Paco=m.real('Paco' + q, 1, 1e6), Pdco=m.real('Pdco' + q, 1, 1e6), Vdco=m.real('Vdco' + q, 1, 2000),
               Pso=m.real('Pso' + q, 0.0, 1000), Pnt=m.real('Pnt' + q, -100, 100))
    for i in range(4):
        inv['C%d' % i] = m.real('C%d%s' % (i, q), -0.01, .01) if conc is None or i == 0 else conc[i - 1]
    m.assume(inv['Pso'] < inv['Pdco'])
    return inv


def sandia_formula(inv, v, p):
    A = inv['Pdco'] * (1 + inv['C1'] * (v - inv['Vdco']))
    B = inv['Pso'] * (1 + inv['C2'] * (v - inv['Vdco']))
    C = inv['C0'] * (1 + inv['C3'] * (v - inv['Vdco']))
    return A, B, (inv['Paco'] / (A - B) - C * (A - B)) * (p - B) + C * (p - B)**2


def check_sandia(m, inv, v, p, r):
    A, B, f = sandia_formula(inv, v, p)
    m.le('sandia: AC power <= Paco', r, inv['Paco'])
    if p < inv['Pso']:
        m.eq('sandia: night tare below startup power', r, -abs(inv['Pnt']))
    elif f <= inv['Paco']:
        m.eq('sandia: published conversion', r, f)
    else:
        m.eq('sandia: clipped at Paco', r, inv['Paco'])


def sandia(m, n):
    inv = sandia_inv(m)
    vs = m.reals('v', n or 1, -50, 2000)
    ps = m.reals('p', n or 1, -10, 2e6)
    for v, p in zip(vs, ps):
        A, B, f = sandia_formula(inv, v, p)
        m.assume(A - B > 0.1)
    if n:
        r = m.pv.inverter.sandia(m.arr(vs), m.arr(ps), inv)
    else:
        r = [m.pv.inverter.sandia(vs[0], ps[0], inv)]
    m.obs('ac', r)
    for v, p, x in zip(vs, ps, r):
        check_sandia(m, inv, v, p, x)


def adr(m, n, vlim, zero=False):
    names = ['Pnom', 'Vnom', 'Pacmax']
    inv = {k: m.real(k, 1, 1e5) for k in names}
    inv['Pnt'] = m.real('Pnt', -100, 100)
    ce = m.reals('ce', 9, -1, 1)
    inv['ADRCoefficients'] = ce
    nan = float('nan')
    lim = dict(Vmax=nan, Vdcmax=nan, MPPTHi=nan, Vmin=nan, MPPTLow=nan)
    for k in vlim:
        lim[k] = m.real(k, 1, 2000)
    inv.update(lim)
    vtol = m.real('vtol', 0, 0.5)
    vs = [0.0] if zero else m.reals('v', n or 1, -50, 2500)
    for v in vs:
        if not zero:
            m.assume(v != 0)
    ps = m.reals('p', n or 1, -10, 2e5)
    if n:
        r = m.pv.inverter.adr(m.arr(vs), m.arr(ps), inv, vtol)
    else:
        r = [m.item(m.pv.inverter.adr(vs[0], ps[0], inv, vtol))]
    hi = None
    for k in ('Vmax', 'Vdcmax', 'MPPTHi'):
        if k in vlim:
            hi = lim[k] if hi is None or lim[k] > hi else hi
    lo = None
    for k in ('Vmin', 'MPPTLow'):
        if k in vlim:
            lo = lim[k] if lo is None or lim[k] > lo else lo
    tare = -abs(inv['Pnt'])
    for v, p, x in zip(vs, ps, r):
        m.obs('ac', x)
        if v == 0:
            if tare <= inv['Pacmax']:
                m.eq('adr: night tare at zero voltage', x, tare)
        elif v > hi * (1 + vtol) or v < lo * (1 - vtol):
            m.nan('adr: NaN outside the voltage window', x)
        else:
            a, b = p / inv['Pnom'], v / inv['Vnom']
            loss = 0
            for i, w in enumerate((1, b - 1, 1 / b - 1)):
                loss = loss + (ce[3 * i] + ce[3 * i + 1] * a + ce[3 * i + 2] * a * a) * w
            f = inv['Pnom'] * (a - loss)
            m.notnan('adr: a number inside the voltage window', x)
            m.le('adr: AC power <= Pacmax', x, inv['Pacmax'])
            if f < tare:
                m.eq('adr: not below the night tare', x, tare)
            elif f > inv['Pacmax']:
                m.eq('adr: clipped at Pacmax', x, inv['Pacmax'])
            else:
                m.eq('adr: published conversion', x, f)


def pvwatts(m, n):
    pdc0 = m.real('pdc0', 1, 1e6)
    nom = m.real('eta_nom', 0.5, 1)
    ref = m.real('eta_ref', 0.5, 1)
    ps = m.reals('p', n or 1, -1e3, 2e6)
    if n:
        r = m.pv.inverter.pvwatts(m.arr(ps), pdc0, nom, ref)
    else:
        r = [m.item(m.pv.inverter.pvwatts(ps[0], pdc0, nom, ref))]
    for p, x in zip(ps, r):
        m.obs('ac', x)
        m.between('pvwatts: 0 <= AC <= eta_nom*pdc0', x, 0, nom * pdc0, 1e-6)
        if p <= 0:
            m.eq('pvwatts: zero without DC power', x, 0)
        else:
            z = p / pdc0
            f = nom / ref * (-0.0162 * z * p - 0.0059 * pdc0 + 0.9858 * p)
            if f < 0:
                m.eq('pvwatts: not negative', x, 0)
            elif f > nom * pdc0:
                m.eq('pvwatts: clipped at eta_nom*pdc0', x, nom * pdc0)
            else:
                m.eq('pvwatts: published conversion', x, f)


def defaults(m):
    p = m.real('pdc', 0, 2e4)
    m.eq('pvwatts: documented default efficiencies', m.pv.inverter.pvwatts(p, 1e4),
         m.pv.inverter.pvwatts(p, 1e4, 0.96, 0.9637))


def jobs(tier):
    for n in (0, 1, 2):
        yield Job('sandia n=%d' % n, sandia, params=dict(n=n))
        yield Job('pvwatts n=%d' % n, pvwatts, params=dict(n=n))
    yield Job('pvwatts defaults', defaults)
    for n, v in ((0, ['Vmax', 'Vdcmax', 'MPPTHi', 'Vmin', 'MPPTLow']), (2, ['Vmax', 'Vmin']),
                 (0, ['MPPTHi', 'MPPTLow']), (0, ['Vdcmax', 'Vmin'])):
        yield Job('adr n=%d %s' % (n, '+'.join(v)), adr, params=dict(n=n, vlim=v))
    yield Job('adr zero voltage', adr, params=dict(n=0, vlim=['Vmax', 'Vmin'], zero=True))
    yield Job('adr zero voltage array', adr, params=dict(n=1, vlim=['MPPTHi', 'MPPTLow'], zero=True))
