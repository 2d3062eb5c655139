from pvsym.cli import Job
PROPERTY = 'P13'
FUNCTIONS = ['temperature.GenericLinearModel (use_*, to_*, __call__, get_generic_linear)', 'temperature.faiman', 'temperature.pvsyst_cell',
             'temperature.noct_sam', 'temperature.sapm_module']
BOUNDS = ('module efficiency in [0.05, 0.3], absorptance in [0.5, 1], Faiman/PVsyst coefficients in [5, 60] and [0, 20], NOCT in '
          '[25, 70] C, SAPM a in [-4.5, -2], b in [-0.2, -0.001], fit winds in [0, 20] m/s at least 0.5 apart; irradiance in '
          '[0, 1500], air temperature in [-60, 60], wind in [0, 40]; exp and log uninterpreted inverses')
OUTSIDE = 'nothing else'


def base(m):
    return m.real('eta', 0.05, 0.3), m.real('alpha', 0.5, 1)


def weather(m):
    return m.real('poa', 0, 1500), m.real('air', -60, 60), m.real('wind', 0, 40)


def faiman(m):
    eta, al = base(m)
    u0, u1 = m.real('u0', 5, 60), m.real('u1', 0, 20)
    g = m.pv.temperature.GenericLinearModel(module_efficiency=eta, absorptance=al)
    m.true('use returns the model', g.use_faiman(u0, u1) is g)
    r = g.to_faiman()
    m.obs('u0 out', r['u0'])
    m.eq('u0', r['u0'], u0)
    m.eq('u1', r['u1'], u1)
    w = weather(m)
    m.eq('predicts the Faiman temperature', m.item(g(*w)), m.item(m.pv.temperature.faiman(*w, u0, u1)))
    d = g.get_generic_linear()
    m.eq('absorptance kept', d['absorptance'], al)
    m.eq('efficiency kept', d['module_efficiency'], eta)
    m.eq('same prediction from the exported parameters', m.item(m.pv.temperature.generic_linear(*w, **d)), m.item(g(*w)))


def pvsyst(m, own):
    eta, al = base(m)
    uc, uv = m.real('uc', 5, 60), m.real('uv', 0, 20)
    e2, a2 = (m.real('eta2', 0.05, 0.3), m.real('alpha2', 0.5, 1)) if own else (eta, al)
    g = m.pv.temperature.GenericLinearModel(module_efficiency=eta, absorptance=al)
    kw = dict(module_efficiency=e2, alpha_absorption=a2) if own else {}
    m.true('use returns the model', g.use_pvsyst(uc, uv, **kw) is g)
    r = g.to_pvsyst()
    m.obs('uc out', r['u_c'])
    for k, v in (('u_c', uc), ('u_v', uv), ('module_efficiency', e2), ('alpha_absorption', a2)):
        m.eq(k, r[k], v)
    w = weather(m)
    m.eq('predicts the PVsyst temperature', m.item(g(*w)), m.item(m.pv.temperature.pvsyst_cell(*w, uc, uv, e2, a2)))
    # and through the Faiman parameters
    f = g.to_faiman()
    m.eq('the exported Faiman parameters predict the same', m.item(m.pv.temperature.faiman(*w, **f)), m.item(g(*w)))


def noct(m, own):
    eta, al = base(m)
    n = m.real('noct', 25, 70)
    e2, a2 = (m.real('eta2', 0.05, 0.3), m.real('alpha2', 0.5, 1)) if own else (eta, al)
    g = m.pv.temperature.GenericLinearModel(module_efficiency=eta, absorptance=al)
    kw = dict(module_efficiency=e2, transmittance_absorptance=a2) if own else {}
    m.true('use returns the model', g.use_noct_sam(n, **kw) is g)
    r = g.to_noct_sam()
    m.obs('noct out', r['noct'])
    for k, v in (('noct', n), ('module_efficiency', e2), ('transmittance_absorptance', a2)):
        m.eq(k, r[k], v)
    w = weather(m)
    m.eq('predicts the SAM temperature', m.item(g(*w)),
         m.item(m.pv.temperature.noct_sam(*w, n, e2, transmittance_absorptance=a2)))


def sapm(m, winds):
    eta, al = base(m)
    a, b = m.real('a', -4.5, -2), m.real('b', -0.2, -0.001)
    g = m.pv.temperature.GenericLinearModel(module_efficiency=eta, absorptance=al)
    lo, hi = (m.real('lo', 0, 20), m.real('hi', 0, 20)) if winds else (1.4, 5.4)
    if winds:
        m.assume(hi >= lo + 0.5)
    kw = dict(wind_fit_low=lo, wind_fit_high=hi) if winds else {}
    m.true('use returns the model', g.use_sapm(a, b, **kw) is g)
    p, t, _ = weather(m)
    for w in (lo, hi):
        m.eq('predicts the SAPM temperature at the fitted wind speeds', m.item(g(p, t, w)),
             m.item(m.pv.temperature.sapm_module(p, t, w, a, b)), rtol=1e-8)
    r = g.to_sapm(**kw)
    m.obs('a out', r['a'])
    m.obs('b out', r['b'])
    m.eq('b', r['b'], b, rtol=1e-6, atol=1e-8)
    m.eq('a', r['a'], a, rtol=1e-6, atol=1e-8)


def override(m):
    """an efficiency given at call time replaces the stored one for that call only"""
    eta, al = base(m)
    e2 = m.real('eta2', 0.05, 0.3)
    g = m.pv.temperature.GenericLinearModel(module_efficiency=eta, absorptance=al).use_faiman(m.real('u0', 5, 60), m.real('u1', 0, 20))
    w = weather(m)
    d = g.get_generic_linear()
    a = m.item(g(*w))
    b = m.item(g(*w, module_efficiency=e2))
    d2 = dict(d, module_efficiency=e2)
    m.eq('efficiency given at call time', b, m.item(m.pv.temperature.generic_linear(*w, **d2)))
    m.eq('and not kept', m.item(g(*w)), a)


def jobs(tier):
    yield Job('faiman', faiman)
    for o in (False, True):
        yield Job('pvsyst' + (', own efficiency' if o else ''), pvsyst, params=dict(own=o))
        yield Job('noct sam' + (', own efficiency' if o else ''), noct, params=dict(own=o))
        yield Job('sapm' + (', other winds' if o else ''), sapm, params=dict(winds=o))
    yield Job('efficiency override', override)
