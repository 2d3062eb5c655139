import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P17'
FUNCTIONS = ['pvsystem.PVSystem.%s' % f for f in (
    '__init__', '_validate_per_array', 'get_aoi', 'get_irradiance', 'get_iam', 'get_cell_temperature', 'calcparams_desoto', 'calcparams_cec',
    'calcparams_pvsyst', 'sapm', 'sapm_spectral_loss', 'sapm_effective_irradiance', 'first_solar_spectral_loss', 'singlediode', 'i_from_v',
    'get_ac', 'scale_voltage_current_power', 'pvwatts_dc', 'pvwatts_losses', 'dc_ohms_from_percent')] + [
    'pvsystem.Array.%s' % f for f in ('__init__', '_infer_temperature_model_params', '_infer_cell_type', 'get_aoi', 'get_irradiance', 'get_iam',
                                      'get_cell_temperature', 'dc_ohms_from_percent')] + [
    'pvsystem.FixedMount.get_orientation', 'pvsystem.SingleAxisTrackerMount.get_orientation', 'pvsystem._unwrap_single_value', 'pvsystem._build_kwargs']
BOUNDS = ('systems of 1, 2 and 3 arrays; every module, temperature, mount, loss and inverter parameter of every array and every per-array '
          'input a separate symbolic number in a physical box; per-array tuples, system-wide values, scalars and one-element series; the '
          'result is compared with the model function applied to the parameters and inputs of the array alone')
OUTSIDE = 'the model functions themselves (decided by P01-P16, P30); Fuentes temperature and single-diode solvers are represented by uninterpreted functions of all their arguments'

OPT = {
    'desoto': (dict(a_ref=(.5, 3), I_L_ref=(1, 12), I_o_ref=(1e-12, 1e-6), R_sh_ref=(50, 1000), R_s=(.1, 1), alpha_sc=(0, .01)),
               dict(EgRef=(1, 2), dEgdT=(-.001, 0), irrad_ref=(900, 1100), temp_ref=(20, 30))),
    'pvsyst': (dict(gamma_ref=(.8, 1.4), mu_gamma=(-.001, .001), I_L_ref=(1, 12), I_o_ref=(1e-12, 1e-6), R_sh_ref=(50, 1000), R_sh_0=(1000, 5000),
                    R_s=(.1, 1), alpha_sc=(0, .01), cells_in_series=(36, 96)),
               dict(R_sh_exp=(3, 7), EgRef=(1, 2), irrad_ref=(900, 1100), temp_ref=(20, 30))),
    'pvwatts': (dict(pdc0=(1, 1000), gamma_pdc=(-.01, 0)), dict(temp_ref=(20, 30), k=(0, .02))),
    'sapm': (dict(Isco=(1, 10), Impo=(1, 10), Voco=(10, 60), Vmpo=(10, 60), Aisc=(0, .002), Aimp=(-.002, .002), Bvoco=(-.5, 0), Mbvoc=(0, .1),
                  Bvmpo=(-.5, 0), Mbvmp=(0, .1), N=(.9, 1.5), C0=(.9, 1.1), C1=(-.1, .1), C2=(-1, 1), C3=(-20, 0), Cells_in_Series=(36, 96)),
             dict(IXO=(1, 10), IXXO=(1, 10), C4=(.9, 1.1), C5=(-.1, .1), C6=(1, 1.3), C7=(-.3, 0))),
    'sapmopt': (dict(A0=(.8, 1), A1=(0, .1), A2=(-.02, 0), A3=(0, .01), A4=(-.001, 0), B0=(.9, 1), B1=(-.01, .01), B2=(-.001, .001), B3=(0, 1e-4),
                     B4=(-1e-5, 0), B5=(0, 1e-7), FD=(.5, 1)), {}),
    'ohms': (dict(V_mp_ref=(10, 60), I_mp_ref=(1, 10)), {}), 'ohms2': (dict(Vmpo=(10, 60), Impo=(1, 10)), {}), 'ohms3': (dict(Vmpp=(10, 60), Impp=(1, 10)), {}),
    'physical': ({}, dict(n=(1.3, 1.7), K=(1, 8), L=(.001, .004))), 'ashrae': ({}, dict(b=(.01, .1))), 'martin_ruiz': ({}, dict(a_r=(.1, .3))), 'schlick': ({}, {}),
    'tsapm': (dict(a=(-4, -3), b=(-.1, -.05), deltaT=(1, 4)), dict(irrad_ref=(900, 1100))),
    'tpvsyst': ({}, dict(u_c=(20, 30), u_v=(0, 5))), 'tfaiman': ({}, dict(u0=(20, 30), u1=(1, 8))),
    'tfaiman_rad': ({}, dict(u0=(20, 30), u1=(1, 8), sky_view=(.5, 1), emissivity=(.5, 1))),
    'tnoct_sam': (dict(noct=(40, 50), module_efficiency=(.1, .2)), dict(transmittance_absorptance=(.8, 1))),
    'tross': (dict(noct=(40, 50)), {}),
}
OPT['cec'] = (dict(OPT['desoto'][0], Adjust=(-10, 10)), OPT['desoto'][1])


def draw(m, key, k, opts=True):
    req, opt = OPT[key]
    d = {n: m.real('%s_%d' % (n, k), *b) for n, b in req.items()}
    if opts:
        d.update({n: m.real('%s_%d' % (n, k), *b) for n, b in opt.items()})
    return d


def system(m, arrays, **kw):
    P = m.pv.pvsystem
    return P.PVSystem(arrays=arrays, **kw)


def array(m, k, module=None, temp=None, mount=None, **kw):
    P = m.pv.pvsystem
    return P.Array(mount or P.FixedMount(m.real('tilt_%d' % k, 0, 90), m.real('az_%d' % k, 0, 360)), module_parameters=module,
                   temperature_model_parameters={} if temp is None else temp, **kw)


def pairs(m, n, *spec):
    return [tuple(m.real('%s_%d' % (nm, k), lo, hi) for k in range(n)) for nm, lo, hi in spec]


def flat(x):
    if isinstance(x, dict):
        return [v for k in x for v in flat(x[k])]
    if isinstance(x, pd.DataFrame):
        return [v for c in x.columns for v in flat(x[c])]
    if isinstance(x, (tuple, list)):
        return [v for e in x for v in flat(e)]
    if isinstance(x, (np.ndarray, pd.Series)):
        return list(np.asarray(x).reshape(-1))
    return [x]


def compare(m, label, sysfun, n, args, own, **kw):
    """result k of the system equals own(k), a single array is unwrapped on request, a wrong length is rejected"""
    r = sysfun(*args, **kw)
    if n == 1:
        m.true(label + ': bare value', not isinstance(r, tuple) or len(flat(r)) > 1)
        w = sysfun(*args, **kw, unwrap=False)
        m.true(label + ': tuple on request', isinstance(w, tuple) and len(w) == 1)
        for a, b in zip(flat(w[0]), flat(r)):
            m.eq(label + ': same value', a, b)
        r = (r,)
    m.true(label + ': one result per array', isinstance(r, tuple) and len(r) == n)
    for k in range(n):
        e = own(k)
        a, b = flat(r[k]), flat(e)
        m.true(label + ': same outputs', len(a) == len(b))
        if isinstance(e, (dict, pd.DataFrame)):
            m.true(label + ': same names', list(e.keys()) == list(r[k].keys()))
        for x, y in zip(a, b):
            m.obs('%s %d' % (label, k), x)
            m.eq(label + ': array by array', x, y)


def wrong(m, label, f, args, n):
    """every per-array input one element too long or short"""
    for j, a in enumerate(args):
        if isinstance(a, tuple):
            for bad in (a + a[:1], a[:-1]):
                if len(bad) != n:
                    m.raises(label + ': wrong length', ValueError, f, *args[:j], bad, *args[j + 1:])


def diode(m, model, n, opts):
    mod = [draw(m, model, k, opts) for k in range(n)]
    s = system(m, [array(m, k, dict(mod[k], unrelated=1)) for k in range(n)])
    E, T = pairs(m, n, ('E', 1, 1200), ('T', -20, 80))
    f = getattr(m.pv.pvsystem, 'calcparams_' + model)
    g = getattr(s, 'calcparams_' + model)
    compare(m, model, g, n, (E, T) if n > 1 else (E[0], T[0]), lambda k: f(E[k], T[k], **mod[k]))
    wrong(m, model, g, (E, T), n)


def pvwatts(m, n, opts):
    mod = [draw(m, 'pvwatts', k, opts) for k in range(n)]
    if opts:
        for k in range(n):
            mod[k]['cap_adjustment'] = k % 2 == 0
    s = system(m, [array(m, k, dict(mod[k])) for k in range(n)])
    E, T = pairs(m, n, ('E', 0, 1200), ('T', -20, 80))
    compare(m, 'pvwatts', s.pvwatts_dc, n, (E, T) if n > 1 else (E[0], T[0]), lambda k: m.pv.pvsystem.pvwatts_dc(E[k], T[k], **mod[k]))
    wrong(m, 'pvwatts', s.pvwatts_dc, (E, T), n)


def sapm(m, n):
    mod = [dict(draw(m, 'sapm', k), **draw(m, 'sapmopt', k)) for k in range(n)]
    s = system(m, [array(m, k, mod[k]) for k in range(n)])
    E, T = pairs(m, n, ('E', 1, 1200), ('T', -20, 80))
    compare(m, 'sapm', s.sapm, n, (E, T) if n > 1 else (E[0], T[0]), lambda k: m.pv.pvsystem.sapm(E[k], T[k], mod[k]))
    wrong(m, 'sapm', s.sapm, (E, T), n)


def sapm_optics(m, n):
    mod = [draw(m, 'sapmopt', k) for k in range(n)]
    s = system(m, [array(m, k, mod[k]) for k in range(n)])
    am = m.real('am', 1, 10)
    b, d, a = pairs(m, n, ('b', 0, 1000), ('d', 0, 500), ('aoi', 0, 85))
    un = (lambda t: t) if n > 1 else (lambda t: t[0])
    compare(m, 'spectral loss', s.sapm_spectral_loss, n, (am,), lambda k: m.pv.spectrum.spectral_factor_sapm(am, mod[k]))
    compare(m, 'effective irradiance', s.sapm_effective_irradiance, n, (un(b), un(d), am, un(a)),
            lambda k: m.pv.pvsystem.sapm_effective_irradiance(b[k], d[k], am, a[k], mod[k]))
    compare(m, 'sapm iam', s.get_iam, n, (un(a), 'sapm'), lambda k: m.pv.iam.sapm(a[k], mod[k]))
    wrong(m, 'effective irradiance', s.sapm_effective_irradiance, (b, d, am, a), n)


def firstsolar(m, n, wide):
    P = m.pv.pvsystem
    co = tuple(m.real('c%d' % i, -.1, 1) for i in range(6))
    mod = [{'Technology': 'CdTe'}, {'first_solar_spectral_coefficients': co, 'Technology': 'Mono-c-Si'}, {'Material': 'mc-Si'}][:n]
    s = system(m, [array(m, k, mod[k]) for k in range(n)])
    am = m.real('am', 1, 5)
    pw = pairs(m, n, ('pw', .2, 7))[0]
    f = m.pv.spectrum.spectral_factor_firstsolar
    own = [lambda w: f(w, am, module_type='cdte'), lambda w: f(w, am, coefficients=co), lambda w: f(w, am, module_type='multisi')]
    arg = pw[0] if wide or n == 1 else pw
    compare(m, 'first solar', s.first_solar_spectral_loss, n, (arg, am), lambda k: own[k](pw[0] if wide else pw[k]))
    wrong(m, 'first solar', s.first_solar_spectral_loss, (pw, am), n)
    types = s._infer_cell_type()
    m.true('cell types', (types if n > 1 else (types,)) == ('cdte', 'monosi', 'multisi')[:n])


def optics(m, model, n, opts):
    mod = [draw(m, model, k, opts) for k in range(n)]
    s = system(m, [array(m, k, dict(mod[k], noise=2)) for k in range(n)])
    aoi = pairs(m, n, ('aoi', 0, 85))[0]
    compare(m, model, s.get_iam, n, (aoi if n > 1 else aoi[0], model.upper() if opts else model),
            lambda k: getattr(m.pv.iam, model)(aoi[k], **mod[k]))
    if not opts and model == 'physical':
        compare(m, 'default iam', s.get_iam, n, (aoi if n > 1 else aoi[0],), lambda k: m.pv.iam.physical(aoi[k]))
        m.raises('unknown iam', ValueError, s.get_iam, aoi, 'nope')
    wrong(m, model, s.get_iam, (aoi, model), n)


def geometry(m, n, tracker):
    P = m.pv.pvsystem
    z, a = m.real('zen', 0, 180), m.real('saz', 0, 360)
    if tracker:
        ks = ('axis_tilt', 'axis_azimuth', 'max_angle', 'gcr', 'cross_axis_tilt')
        prm = [{c: m.real('%s_%d' % (c, k), lo, hi) for c, (lo, hi) in zip(ks, ((0, 30), (0, 360), (30, 90), (.1, .9), (-10, 10)))} for k in range(n)]
        back = [k % 2 == 1 for k in range(n)]

        def single(apparent_zenith, solar_azimuth, axis_tilt=0, axis_azimuth=0, max_angle=90, backtrack=True, gcr=2 / 7, cross_axis_tilt=0):
            v = (apparent_zenith, solar_azimuth, axis_tilt, axis_azimuth, max_angle, float(backtrack), gcr, cross_axis_tilt)
            return {'surface_tilt': m.uf('tilt', *v, lo=0, hi=180), 'surface_azimuth': m.uf('azim', *v, lo=0, hi=360)}
        m.stub('tracking', 'singleaxis', single)
        mounts = [P.SingleAxisTrackerMount(**prm[k], backtrack=back[k]) for k in range(n)]
        ori = [single(z, a, **prm[k], backtrack=back[k]) for k in range(n)]
        # untouched parameters keep the documented defaults
        d = P.SingleAxisTrackerMount().get_orientation(z, a)
        e = single(z, a, 0, 0, 90, True, 2 / 7, 0)
        m.eq('default tracker', d['surface_tilt'], e['surface_tilt'])
        # fixed and tracking arrays side by side
        if n == 3:
            t, q = m.real('tilt_2', 0, 90), m.real('az_2', 0, 360)
            mounts[2], ori[2] = P.FixedMount(t, q), {'surface_tilt': t, 'surface_azimuth': q}
    else:
        ori = [{'surface_tilt': m.real('tilt_%d' % k, 0, 90), 'surface_azimuth': m.real('az_%d' % k, 0, 360)} for k in range(n)]
        mounts = [P.FixedMount(**o) for o in ori]
    s = system(m, [array(m, k, mount=mounts[k]) for k in range(n)])
    compare(m, 'aoi', s.get_aoi, n, (z, a), lambda k: m.pv.irradiance.aoi(ori[k]['surface_tilt'], ori[k]['surface_azimuth'], z, a))
    if not tracker and n == 1:
        s = m.pv.pvsystem.PVSystem(**ori[0])
        compare(m, 'aoi, direct arguments', s.get_aoi, n, (z, a), lambda k: m.pv.irradiance.aoi(ori[k]['surface_tilt'], ori[k]['surface_azimuth'], z, a))


def transposition(m, n, wide, albedo, extra):
    """the transposition function receives every value of its own array (it is an uninterpreted function of all arguments here)"""
    P = m.pv.pvsystem
    z, a = m.real('zen', 0, 85), m.real('saz', 0, 360)
    tz = [(m.real('tilt_%d' % k, 0, 90), m.real('az_%d' % k, 0, 360)) for k in range(n)]
    own = [m.real('alb_%d' % k, 0, 1) for k in range(n)]
    arrays = [P.Array(P.FixedMount(*tz[k]), albedo=own[k] if albedo != 'surface' else None, surface_type=('snow', 'grass', None)[k],
                      temperature_model_parameters={}) for k in range(n)]
    s = system(m, arrays)
    dni, ghi, dhi, alb = pairs(m, n, ('dni', 0, 1000), ('ghi', 0, 1000), ('dhi', 0, 500), ('galb', 0, 1))
    def total(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth, dni, ghi, dhi, dni_extra=None, airmass=None, albedo=0.25,
              surface_type=None, model='isotropic', model_perez='allsitescomposite1990'):
        v = (surface_tilt, surface_azimuth, solar_zenith, solar_azimuth, dni, ghi, dhi, dni_extra, airmass, albedo,
             float(len(model)), float(len(model_perez)))
        return {'poa_global': m.uf('total', *v), 'poa_direct': m.uf('direct', *v)}
    m.stub('irradiance', 'get_total_irradiance', total)
    m.stub('atmosphere', 'get_relative_airmass', lambda z, model='kastenyoung1989': m.uf('am', z, float(len(model))))
    kw, ekw = {}, dict(model='haydavies', dni_extra=1367.0, airmass=m.uf('am', z, 15.0))
    if extra:
        kw.update(dni_extra=m.real('ext', 1300, 1400), airmass=m.real('amx', 1, 10), model='perez', model_perez='capecanaveral1988')
        ekw.update(kw)
    if albedo == 'given':
        kw['albedo'] = alb[0] if wide or n == 1 else alb
        al = [alb[0] if wide else alb[k] for k in range(n)]
    elif albedo == 'surface':
        al = [(.65, .20, .25)[k] for k in range(n)]
    else:
        al = own
    pick = (lambda t: t[0]) if wide or n == 1 else (lambda t: t)
    compare(m, 'irradiance', s.get_irradiance, n, (z, a, pick(dni), pick(ghi), pick(dhi)),
            lambda k: total(*tz[k], z, a, *[(t[0] if wide else t[k]) for t in (dni, ghi, dhi)], albedo=al[k], **ekw), **kw)
    wrong(m, 'irradiance', s.get_irradiance, (z, a, dni, ghi, dhi), n)


def celltemp(m, model, n, wide, opts):
    P = m.pv.pvsystem
    par = [draw(m, 't' + model, k, opts) for k in range(n)] if model != 'fuentes' else \
        [dict(noct_installed=m.real('noct_%d' % k, 40, 50), **({c: m.real('%s_%d' % (c, k), .1, 30) for c in (
            'wind_height', 'emissivity', 'absorption', 'surface_tilt', 'module_width', 'module_length')} if opts else {})) for k in range(n)]
    mod = [dict(module_efficiency=m.real('eff_%d' % k, .1, .2), alpha_absorption=m.real('abs_%d' % k, .8, 1)) if opts else {} for k in range(n)]
    if model == 'noct_sam' and opts:
        for k in range(n):
            par[k].update(array_height=1 + k % 2, mount_standoff=(1, 2, 4)[k])
    heights = [m.real('h_%d' % k, 1, 10) if opts else None for k in range(n)]
    arrays = [P.Array(P.FixedMount(20, 180, module_height=heights[k]), module_parameters=mod[k], temperature_model_parameters=dict(par[k], junk=9))
              for k in range(n)]
    s = system(m, arrays)
    g, t, w, e, ir = pairs(m, n, ('poa', 0, 1200), ('air', -20, 40), ('wind', 0, 20), ('eff_irr', 0, 1100), ('ir', 200, 500))
    if model == 'fuentes':
        def fuentes(poa_global, temp_air, wind_speed, noct_installed, module_height=5, wind_height=9.144, emissivity=0.84, absorption=0.83,
                    surface_tilt=30, module_width=0.31579, module_length=1.2):
            return m.uf('fuentes', poa_global, temp_air, wind_speed, noct_installed, module_height, wind_height, emissivity, absorption, surface_tilt,
                        module_width, module_length)
        m.stub('temperature', 'fuentes', fuentes)
    T = m.pv.temperature

    def own(k):
        tt, ww, ee, ii = [(x[0] if wide else x[k]) for x in (t, w, e, ir)]
        p = par[k]
        if model == 'sapm':
            return T.sapm_cell(g[k], tt, ww, **p)
        if model == 'pvsyst':
            return T.pvsyst_cell(g[k], tt, ww, **p, **mod[k])
        if model == 'faiman':
            return T.faiman(g[k], tt, ww, **p)
        if model == 'faiman_rad':
            return T.faiman_rad(g[k], tt, ww, ir_down=ii, **p)
        if model == 'noct_sam':
            return T.noct_sam(g[k], tt, ww, effective_irradiance=ee, **p)
        if model == 'ross':
            return T.ross(g[k], tt, **p)
        if opts:
            p = dict(p, module_height=heights[k])
        return T.fuentes(g[k], tt, ww, **p)
    pick = (lambda x: x[0]) if wide or n == 1 else (lambda x: x)
    args = (g if n > 1 else g[0], pick(t), pick(w), model)
    if model == 'noct_sam':
        m.assume(g[0] > 1)
        for x in g[1:]:
            m.assume(x > 1)
    compare(m, model, s.get_cell_temperature, n, args, own, effective_irradiance=pick(e), longwave_down=pick(ir))
    wrong(m, model, s.get_cell_temperature, (g, t, w, model), n)
    if model in ('sapm', 'fuentes', 'noct_sam'):
        bad = system(m, [P.Array(P.FixedMount(), module_parameters={}, temperature_model_parameters={'x': 1}) for k in range(n)])
        m.raises('missing parameters', KeyError, bad.get_cell_temperature, *args)
    m.raises('unknown temperature model', ValueError, s.get_cell_temperature, *args[:3], 'nope')


def strings(m, n):
    P = m.pv.pvsystem
    vals = ('v_mp', 'i_mp', 'p_mp')
    sc = [(m.real('mods_%d' % k, 1, 30), m.real('str_%d' % k, 1, 50)) for k in range(n)]
    s = system(m, [array(m, k, modules_per_string=sc[k][0], strings=sc[k][1]) for k in range(n)])
    dat = tuple(pd.DataFrame({c: [m.real('%s_%d' % (c, k), 0, 300)] for c in vals}, index=[5]) for k in range(n))
    def own(k):
        a, b = sc[k]
        d = dat[k]
        return pd.DataFrame({'v_mp': d.v_mp * a, 'i_mp': d.i_mp * b, 'p_mp': d.p_mp * a * b})
    compare(m, 'strings', s.scale_voltage_current_power, n, (dat if n > 1 else dat[0],), own)
    wrong(m, 'strings', s.scale_voltage_current_power, (dat,), n)
    if n == 1:
        s = P.PVSystem(modules_per_string=sc[0][0], strings_per_inverter=sc[0][1])
        compare(m, 'strings, direct arguments', s.scale_voltage_current_power, n, (dat[0],), own)


def ohms(m, n):
    P = m.pv.pvsystem
    mod = [draw(m, ('ohms', 'ohms2', 'ohms3')[k], k) for k in range(n)]
    sc = [(m.real('mods_%d' % k, 1, 30), m.real('str_%d' % k, 1, 50), m.real('pct_%d' % k, 0, 10)) for k in range(n)]
    s = system(m, [array(m, k, mod[k], modules_per_string=sc[k][0], strings=sc[k][1], array_losses_parameters={'dc_ohmic_percent': sc[k][2]}) for k in range(n)])
    def own(k):
        v, i = mod[k].values()
        a, b, pc = sc[k]
        return pc / 100 * (a * v) / (b * i)
    compare(m, 'ohms', s.dc_ohms_from_percent, n, (), own)
    bad = system(m, [array(m, 0, {'V_mp_ref': 1}, mount=P.FixedMount(), array_losses_parameters={'dc_ohmic_percent': 1})])
    m.raises('missing module parameters', ValueError, bad.dc_ohms_from_percent)
    if n == 1:
        s = P.PVSystem(module_parameters=mod[0], modules_per_string=sc[0][0], strings_per_inverter=sc[0][1],
                       losses_parameters={'dc_ohmic_percent': sc[0][2], 'soiling': 1})
        m.eq('ohms, direct arguments', s.dc_ohms_from_percent(), own(0))


INV = dict(Paco=(100, 5000), Pdco=(110, 5500), Vdco=(100, 500), C0=(-1e-5, 1e-5), C1=(-1e-4, 1e-4), C2=(-1e-3, 1e-3), C3=(-1e-3, 1e-3), Pso=(1, 50), Pnt=(0, 5))


def ac(m, model, n):
    P = m.pv.pvsystem
    arrays = [array(m, k, {'pdc0': m.real('modp_%d' % k, 1, 1000)}) for k in range(n)]
    v, p = pairs(m, n, ('vdc', 50, 600), ('pdc', 0, 3000))
    un = (lambda t: t) if n > 1 else (lambda t: t[0])
    if model == 'pvwatts':
        par = dict(pdc0=m.real('ipdc0', 100, 5000), eta_inv_nom=m.real('nom', .9, 1), eta_inv_ref=m.real('ref', .9, 1))
        s = system(m, arrays, inverter_parameters=dict(par, junk=1))
        r = s.get_ac('PVWatts', un(p))
        e = m.pv.inverter.pvwatts_multi(p, **par) if n > 1 else m.pv.inverter.pvwatts(p[0], **par)
        s2 = system(m, arrays, inverter_parameters={'pdc0': par['pdc0']})
        m.eq('default efficiencies', s2.get_ac('pvwatts', un(p)), (m.pv.inverter.pvwatts_multi(p, par['pdc0']) if n > 1 else m.pv.inverter.pvwatts(p[0], par['pdc0'])))
        wrong(m, model, s.get_ac, (model, p), n)
    elif model == 'sandia':
        par = {c: m.real(c, *b) for c, b in INV.items()}
        s = system(m, arrays, inverter_parameters=par)
        r = s.get_ac('Sandia', un(p), un(v))
        e = m.pv.inverter.sandia_multi(v, p, par) if n > 1 else m.pv.inverter.sandia(v[0], p[0], par)
        wrong(m, model, s.get_ac, (model, p, v), n)
    else:
        par = {c: m.real(c, *b) for c, b in dict(Pnom=(500, 5000), Vnom=(100, 500), Vmax=(600, 800), Vmin=(50, 100), Vdcmax=(600, 900), MPPTHi=(500, 600),
                                                MPPTLow=(50, 100), Pacmax=(500, 5000), Pnt=(0, 5)).items()}
        par['ADRCoefficients'] = [m.real('adr%d' % i, -.05, .05) for i in range(9)]
        s = system(m, arrays, inverter_parameters=par)
        if n > 1:
            m.raises('adr has one input', ValueError, s.get_ac, 'adr', p, v)
            return
        r, e = s.get_ac('ADR', p[0], v[0]), m.pv.inverter.adr(v[0], p[0], par)
        if m.isnan(e) or m.isnan(r):
            m.true('NaN alike', m.isnan(e) and m.isnan(r))
            return
    m.obs('ac', r)
    m.eq('ac power', m.item(r), m.item(e))
    m.raises('unknown inverter model', ValueError, s.get_ac, 'nope', p, v)


def losses(m):
    names = ('soiling', 'shading', 'snow', 'mismatch', 'wiring', 'connections', 'lid', 'nameplate_rating', 'age', 'availability')
    v = {c: m.real(c, 0, 20) for c in names}
    P = m.pv.pvsystem
    for s in (P.PVSystem(losses_parameters=dict(v, other=3)), P.PVSystem(arrays=[P.Array(P.FixedMount())] * 2, losses_parameters=dict(v))):
        m.eq('losses', s.pvwatts_losses(), P.pvwatts_losses(**v))
    m.eq('default losses', P.PVSystem().pvwatts_losses(), P.pvwatts_losses())
    m.raises('no arrays', ValueError, P.PVSystem, arrays=[])


def diodes(m):
    """the single-diode methods pass their arguments in order"""
    P = m.pv.pvsystem
    names = ('photocurrent', 'saturation_current', 'resistance_series', 'resistance_shunt', 'nNsVth')
    p = [m.real(c, .1, 5) for c in names]
    v = m.real('v', 0, 50)
    m.stub('pvsystem', 'singlediode', lambda photocurrent, saturation_current, resistance_series, resistance_shunt, nNsVth, method='lambertw': m.uf(
        'sd', photocurrent, saturation_current, resistance_series, resistance_shunt, nNsVth, float(len(method))))
    m.stub('pvsystem', 'i_from_v', lambda voltage, photocurrent, saturation_current, resistance_series, resistance_shunt, nNsVth, method='lambertw': m.uf(
        'iv', voltage, photocurrent, saturation_current, resistance_series, resistance_shunt, nNsVth, float(len(method))))
    s = P.PVSystem()
    m.eq('single diode', s.singlediode(*p), m.uf('sd', *p, 8.0))
    m.eq('current', s.i_from_v(v, *p), m.uf('iv', v, *p, 8.0))
    m.eq('current, keywords', s.i_from_v(voltage=v, **dict(zip(names, p))), m.uf('iv', v, *p, 8.0))


def inferred(m):
    """temperature parameters follow from racking and module type of the own array"""
    P, T = m.pv.pvsystem, m.pv.temperature.TEMPERATURE_MODEL_PARAMETERS
    r = m.choice('racking', ['open_rack', 'close_mount', 'insulated_back', 'freestanding', 'insulated', 'semi_integrated', 'nope', None])
    t = m.choice('type', ['glass_glass', 'glass_polymer', None])
    x = m.real('x', 0, 1)
    a = P.Array(P.FixedMount(racking_model=r), module_type=t, module_parameters={'x': x})
    m.assume(r != 'insulated_back' or t == 'glass_polymer')
    key = '%s_%s' % (r, t)
    e = T['sapm'].get(key)
    if e is None:
        e = T['pvsyst'].get(r, {})
    m.true('parameters', dict(a.temperature_model_parameters) == dict(e))
    if r is not None and t is not None:
        m.true('direct arguments', dict(P.PVSystem(racking_model=r, module_type=t).arrays[0].temperature_model_parameters) == dict(e))
    b = P.Array(P.FixedMount(racking_model=r), module_type=t, temperature_model_parameters={'mine': x})
    m.true('given parameters win', b.temperature_model_parameters == {'mine': x})
    m.eq('own module parameters', a.module_parameters['x'], x)


def jobs(tier):
    ns = (1, 2, 3)
    for n in ns:
        for opts in (False, True):
            o = ', options' if opts else ''
            for model in ('desoto', 'cec', 'pvsyst'):
                yield Job('%s, %d arrays%s' % (model, n, o), diode, params=dict(model=model, n=n, opts=opts))
            yield Job('pvwatts, %d arrays%s' % (n, o), pvwatts, params=dict(n=n, opts=opts))
            for model in ('physical', 'ashrae', 'martin_ruiz', 'schlick'):
                yield Job('%s iam, %d arrays%s' % (model, n, o), optics, params=dict(model=model, n=n, opts=opts))
            for model in ('sapm', 'pvsyst', 'faiman', 'faiman_rad', 'noct_sam', 'ross', 'fuentes'):
                for wide in (False, True) if n > 1 else (False,):
                    yield Job('%s temperature, %d arrays%s%s' % (model, n, o, ', system-wide weather' if wide else ''), celltemp,
                              params=dict(model=model, n=n, wide=wide, opts=opts))
        yield Job('sapm, %d arrays' % n, sapm, params=dict(n=n))
        yield Job('sapm optics, %d arrays' % n, sapm_optics, params=dict(n=n))
        for wide in (False, True) if n > 1 else (False,):
            w = ', system-wide' if wide else ''
            yield Job('first solar, %d arrays%s' % (n, w), firstsolar, params=dict(n=n, wide=wide))
            for alb in ('own', 'given', 'surface'):
                for extra in (False, True):
                    yield Job('transposition, %d arrays%s, albedo %s%s' % (n, w, alb, ', all arguments' if extra else ''), transposition,
                              params=dict(n=n, wide=wide, albedo=alb, extra=extra))
        for tr in (False, True):
            yield Job('%s, %d arrays' % ('trackers' if tr else 'fixed mounts', n), geometry, params=dict(n=n, tracker=tr))
        yield Job('string scaling, %d arrays' % n, strings, params=dict(n=n))
        yield Job('ohmic losses, %d arrays' % n, ohms, params=dict(n=n))
        for model in ('pvwatts', 'sandia', 'adr'):
            yield Job('%s inverter, %d arrays' % (model, n), ac, params=dict(model=model, n=n))
    yield Job('pvwatts losses', losses)
    yield Job('single diode', diodes)
    yield Job('inferred temperature parameters', inferred)
