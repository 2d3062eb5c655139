import functools
from pvsym.cli import Job
from pvsym import symdict as sd
PROPERTY = 'P18'
FUNCTIONS = ['modelchain.ModelChain.%s' % f for f in (
    '__init__', 'with_pvwatts', 'with_sapm', 'dc_model', 'infer_dc_model', 'ac_model', 'infer_ac_model', 'aoi_model', 'infer_aoi_model',
    'spectral_model', 'temperature_model', 'infer_temperature_model', 'dc_ohmic_model', 'losses_model')] + [
    'modelchain._common_keys', 'modelchain._snl_params', 'modelchain._adr_params', 'modelchain._pvwatts_params']
BOUNDS = ('the presence of every parameter key that selects or is required by a model is a separate symbolic boolean per array (up to 34 keys, '
          '1, 2 and 3 arrays) plus an unrelated key; names are tried in lower, upper and title case together with near misses')
OUTSIDE = 'the parameter values (the selection depends on the keys only); names other than the listed ones and near misses'

DC_SELECT = [('sapm', {'A0', 'A1', 'C3'}), ('cec', {'a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s', 'Adjust'}),
             ('desoto', {'a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s'}),
             ('pvsyst', {'gamma_ref', 'mu_gamma', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_sh_0', 'R_sh_exp', 'R_s'}),
             ('pvwatts', {'pdc0', 'gamma_pdc'})]
DC_NEED = {'sapm': {'C0', 'C1', 'C2', 'C3', 'Isco', 'Impo', 'Voco', 'Vmpo', 'Aisc', 'Aimp', 'Bvoco', 'Mbvoc', 'Bvmpo', 'Mbvmp', 'N', 'Cells_in_Series'},
           'desoto': {'alpha_sc', 'a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s'},
           'cec': {'alpha_sc', 'a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s', 'Adjust'},
           'pvsyst': {'gamma_ref', 'mu_gamma', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_sh_0', 'R_s', 'alpha_sc', 'EgRef', 'cells_in_series'},
           'pvwatts': {'pdc0', 'gamma_pdc'}}
DC_METHOD = {'sapm': 'sapm', 'cec': 'cec', 'desoto': 'desoto', 'pvsyst': 'pvsyst', 'pvwatts': 'pvwatts_dc'}
AC_SELECT = [('sandia', {'C0', 'C1', 'C2'}), ('adr', {'ADRCoefficients'}), ('pvwatts', {'pdc0'})]
AC_METHOD = {'sandia': 'sandia_inverter', 'adr': 'adr_inverter', 'pvwatts': 'pvwatts_inverter'}
AOI_SELECT = [('physical', {'n', 'K', 'L'}), ('sapm', {'B0', 'B1', 'B2', 'B3', 'B4', 'B5'}), ('ashrae', {'b'}), ('martin_ruiz', {'a_r'}),
              ('interp', {'theta_ref', 'iam_ref'})]
AOI_METHOD = {n: n + '_aoi_loss' for n in ('physical', 'sapm', 'ashrae', 'martin_ruiz', 'interp', 'schlick')}
AOI_METHOD['no_loss'] = 'no_aoi_loss'
T_SELECT = [('sapm', {'a', 'b', 'deltaT'}), ('pvsyst', {'u_c', 'u_v'}), ('faiman', {'u0', 'u1'}), ('fuentes', {'noct_installed'}),
            ('noct_sam', {'noct', 'module_efficiency'})]
T_METHOD = {n: n + '_temp' for n, _ in T_SELECT}
SPEC_METHOD = {'first_solar': 'first_solar_spectral_loss', 'sapm': 'sapm_spectral_loss', 'no_loss': 'no_spectral_loss'}
OHM_METHOD = {'dc_ohms_from_percent': 'dc_ohms_from_percent', 'no_loss': 'no_dc_ohmic_loss'}
LOSS_METHOD = {'pvwatts': 'pvwatts_losses', 'no_loss': 'no_extra_losses'}
CASES = [str.lower, str.upper, str.title]


def params(m, tag, keys, fixed=()):
    """a dictionary in which each key is present or absent"""
    keys = sorted(keys)
    pres = {k: m.real('has_%s_%s' % (tag, k), 0, 1) >= .5 for k in keys}
    vals = {k: 1.0 for k in keys}
    vals.update({k: 1.0 for k in fixed})
    pres.update({k: True for k in fixed})
    if m.symbolic:
        return sd.SymDict(vals, pres), pres
    return {k: v for k, v in vals.items() if pres[k]}, {k: bool(p) for k, p in pres.items()}


def has(pres, keys):
    """every array has all the keys"""
    return sd.And([p.get(k, False) for p in pres for k in sorted(keys)])


def chain(m, n=1, module=None, temp=None, inv=None, cls=None, **kw):
    P = m.pv.pvsystem
    module = module or [{}] * n
    temp = temp or [dict(a=-3.5, b=-.06, deltaT=3.)] * n
    s = P.PVSystem(arrays=[P.Array(P.FixedMount(20, 180), module_parameters=module[k], temperature_model_parameters=temp[k]) for k in range(n)],
                   inverter_parameters={'pdc0': 1.0} if inv is None else inv)
    return (cls or m.pv.modelchain.ModelChain)(s, m.pv.location.Location(32.2, -110.9), **kw)


def name(f):
    return getattr(f, '__name__', None) or type(f).__name__


def outcome(m, make, attr):
    try:
        mc = make()
    except ValueError:
        return ValueError
    return name(getattr(mc, attr))


def decide(m, label, got, select, methods, pres, need=None):
    """got is the method that the documented priority selects for the present keys"""
    free = True
    cond = {}
    for n, keys in select:
        h = has(pres, keys)
        c = sd.And([free, h])
        if need is not None:
            cond[ValueError] = sd.Or([cond.get(ValueError, False), sd.And([c, sd.Not(has(pres, need[n]))])])
            c = sd.And([c, has(pres, need[n])])
        cond[methods[n]] = c
        free = sd.And([free, sd.Not(h)])
    cond[ValueError] = sd.Or([cond.get(ValueError, False), free])
    m.true(label + ' is a documented outcome', got in cond)
    m.true('%s is selected exactly when documented (%s)' % (label, getattr(got, '__name__', got)), cond.get(got, False))


DC_KEYS = set().union(*[k for _, k in DC_SELECT], *DC_NEED.values())


def dc_infer(n):
    def h(m):
        ps = [params(m, 'm%d' % k, DC_KEYS, fixed=('unrelated',)) for k in range(n)]
        got = outcome(m, lambda: chain(m, n, [p for p, _ in ps], aoi_model='no_loss', spectral_model='no_loss'), 'dc_model')
        decide(m, 'dc model', got, DC_SELECT, DC_METHOD, [p for _, p in ps], DC_NEED)
    return Job('dc_infer_%d' % n, h, max_paths=2000)


def dc_explicit(n, model):
    def h(m):
        ps = [params(m, 'm%d' % k, DC_KEYS) for k in range(n)]
        nm = m.choice('case', CASES)(model)
        got = outcome(m, lambda: chain(m, n, [p for p, _ in ps], dc_model=nm, aoi_model='no_loss'), 'dc_model')
        ok = has([p for _, p in ps], DC_NEED[model])
        m.true('named dc model', got in (DC_METHOD[model], ValueError))
        m.true('a named dc model needs exactly its documented parameters', ok if got != ValueError else sd.Not(ok))
    return Job('dc_named_%s_%d' % (model, n), h)


def ac_infer(n):
    def h(m):
        p, pres = params(m, 'i', {'C0', 'C1', 'C2', 'ADRCoefficients', 'pdc0', 'Paco', 'Vdco'})
        try:
            got = name(chain(m, n, [{'pdc0': 1., 'gamma_pdc': -.003}] * n, inv=p, aoi_model='no_loss').ac_model)
        except ValueError:
            got = ValueError
        select = AC_SELECT
        snl, adr, pvw = (has([pres], k) for _, k in select)
        cond = {'sandia_inverter': snl, 'pvwatts_inverter': sd.And([sd.Not(snl), sd.Not(adr), pvw])}
        none = sd.And([sd.Not(snl), sd.Not(adr), sd.Not(pvw)])
        only = sd.And([sd.Not(snl), adr])
        if n == 1:
            cond['adr_inverter'], cond[ValueError] = only, none
        else:
            cond[ValueError] = sd.Or([none, only])
        m.true('ac model is a documented outcome', got in cond)
        m.true('ac model is selected exactly when documented', cond.get(got, False))
    return Job('ac_infer_%d' % n, h)


def aoi_infer(n):
    def h(m):
        keys = set().union(*[k for _, k in AOI_SELECT])
        ps = [params(m, 'm%d' % k, keys, fixed=('pdc0', 'gamma_pdc')) for k in range(n)]
        got = outcome(m, lambda: chain(m, n, [p for p, _ in ps]), 'aoi_model')
        decide(m, 'aoi model', got, AOI_SELECT, AOI_METHOD, [p for _, p in ps])
    return Job('aoi_infer_%d' % n, h, max_paths=1000)


PVW = {'pdc0': 1., 'gamma_pdc': -.003}
T_KEYS = set().union(*[k for _, k in T_SELECT])


def t_infer(n):
    def h(m):
        ps = [params(m, 't%d' % k, T_KEYS, fixed=('irrad_ref',)) for k in range(n)]
        got = outcome(m, lambda: chain(m, n, [PVW] * n, [p for p, _ in ps], aoi_model='no_loss'), 'temperature_model')
        decide(m, 'temperature model', got, T_SELECT, T_METHOD, [p for _, p in ps])
    return Job('temperature_infer_%d' % n, h, max_paths=1000)


def t_explicit(n, model):
    def h(m):
        ps = [params(m, 't%d' % k, T_KEYS, fixed=('irrad_ref',)) for k in range(n)]
        nm = m.choice('case', CASES)(model)
        got = outcome(m, lambda: chain(m, n, [PVW] * n, [p for p, _ in ps], aoi_model='no_loss', temperature_model=nm), 'temperature_model')
        pres = [p for _, p in ps]
        ok, free = False, True
        for x, keys in T_SELECT:
            if x == model:
                ok = sd.And([free, has(pres, keys)])
            free = sd.And([free, sd.Not(has(pres, keys))])
        m.true('named temperature model', got in (T_METHOD[model], ValueError))
        m.true('a named temperature model must be the one its parameters select', ok if got != ValueError else sd.Not(ok))
    return Job('temperature_named_%s_%d' % (model, n), h, max_paths=1000)


NEAR = ['', ' ', 'a', 'd', 'r', 'ad', 'dr', 'adr ', 'sand', 'andia', 'sapm_', 'pvwatt', 'pvwatts_dc', 'pv', 'no', 'loss', 'none', 'physic', 'no_los',
        'singlediode', 'linear', 'desoto_', 'first', 'fs', 'fuente', 'noct', 'ohms', 'sapm_temp', 'infer']


def names(attr, methods, default):
    """every documented name in any case, an unknown name raises, a callable is used with the chain as its argument"""
    kind = {'dc_model': 'dc', 'temperature_model': 't'}.get(attr)

    def h(m):
        temp = {x: {k: 1. for k in keys} for x, keys in T_SELECT}
        kw = dict(aoi_model='no_loss', losses_model='no_loss')
        x = m.choice('name', sorted(methods) + NEAR + [None, 'callable'])
        f = m.choice('case', CASES)
        mod, t = dict({k: 1. for k in DC_NEED[x]} if kind == 'dc' and x in methods else PVW), dict(temp[x] if kind == 't' and x in methods else temp['sapm'])
        if x is None:
            if default is None:
                return
            kw[attr] = None
            m.true('default', name(getattr(chain(m, 1, [mod], [t], **kw), attr)) == default)
            return
        if x == 'callable':
            seen = []

            def g(mc, *a, **k):
                seen.append((mc, a, k))
                return mc
            kw[attr] = g
            mc = chain(m, 1, [mod], [t], **kw)
            getattr(mc, attr)()
            m.true('a callable is called with the chain', len(seen) == 1 and seen[0][0] is mc and seen[0][1:] == ((), {}))
            return
        kw[attr] = f(x)
        if x in methods:
            m.true('named %s' % attr, name(getattr(chain(m, 1, [mod], [t], **kw), attr)) == methods[x])
        else:
            m.raises('an unknown %s is rejected' % attr, ValueError, lambda: chain(m, 1, [mod], [t], **kw))
    return Job('names_%s' % attr, h, max_paths=400)


CONFIG = {
    'with_pvwatts': dict(dc_model='pvwatts_dc', ac_model='pvwatts_inverter', losses_model='pvwatts_losses', aoi_model='physical_aoi_loss',
                         spectral_model='no_spectral_loss', temperature_model='sapm_temp', dc_ohmic_model='no_dc_ohmic_loss',
                         transposition_model='perez', clearsky_model='ineichen', airmass_model='kastenyoung1989', solar_position_method='nrel_numpy'),
    'with_sapm': dict(dc_model='sapm', ac_model='sandia_inverter', losses_model='no_extra_losses', aoi_model='sapm_aoi_loss',
                      spectral_model='sapm_spectral_loss', temperature_model='sapm_temp', dc_ohmic_model='no_dc_ohmic_loss',
                      transposition_model='haydavies', clearsky_model='ineichen', airmass_model='kastenyoung1989', solar_position_method='nrel_numpy')}
OVERRIDE = dict(dc_model=('desoto', 'desoto'), ac_model=('adr', 'adr_inverter'), losses_model=('no_loss', 'no_extra_losses'),
                aoi_model=('ashrae', 'ashrae_aoi_loss'), spectral_model=('first_solar', 'first_solar_spectral_loss'),
                dc_ohmic_model=('dc_ohms_from_percent', 'dc_ohms_from_percent'), transposition_model=('king', 'king'),
                clearsky_model=('haurwitz', 'haurwitz'), airmass_model=('simple', 'simple'), solar_position_method=('ephemeris', 'ephemeris'))


def config(which):
    def h(m):
        over = m.choice('override', [None] + sorted(OVERRIDE))
        kw, want = {}, dict(CONFIG[which])
        if over:
            kw = {over: OVERRIDE[over][0]}
            want[over] = OVERRIDE[over][1]
        p, pres = params(m, 'm', DC_KEYS)
        try:
            mc = chain(m, 1, [p], cls=getattr(m.pv.modelchain.ModelChain, which), name='nm', **kw)
        except ValueError:
            mc = None
        need = DC_NEED['desoto' if over == 'dc_model' else which[5:]]
        ok = has([pres], need)
        m.true('%s needs the parameters of its dc model' % which, ok if mc is not None else sd.Not(ok))
        if mc is None:
            return
        for k, v in want.items():
            x = getattr(mc, k)
            m.true('%s: %s' % (which, k), (x if isinstance(x, str) else name(x)) == v)
        m.true('%s: name' % which, mc.name == 'nm')
    return Job('%s' % which, h, max_paths=400)


def jobs(tier):
    return ([dc_infer(n) for n in (1, 2, 3)] + [dc_explicit(n, x) for n in (1, 2) for x in DC_NEED] + [ac_infer(n) for n in (1, 2, 3)]
            + [aoi_infer(n) for n in (1, 2, 3)] + [t_infer(n) for n in (1, 2, 3)] + [t_explicit(n, x) for n in (1, 2) for x, _ in T_SELECT]
            + [names('dc_model', DC_METHOD, 'pvwatts_dc'), names('ac_model', AC_METHOD, 'pvwatts_inverter'), names('aoi_model', AOI_METHOD, None),
               names('temperature_model', T_METHOD, 'sapm_temp'), names('spectral_model', SPEC_METHOD, 'no_spectral_loss'),
               names('dc_ohmic_model', OHM_METHOD, None), names('losses_model', LOSS_METHOD, None)] + [config(x) for x in CONFIG])
