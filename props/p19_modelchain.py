import inspect
import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P19'
FUNCTIONS = ['modelchain.ModelChain.%s' % f for f in (
    'run_model', 'run_model_from_poa', 'run_model_from_effective_irradiance', 'prepare_inputs', 'prepare_inputs_from_poa', 'complete_irradiance',
    'effective_irradiance_model', 'sapm', 'desoto', 'cec', 'pvsyst', 'pvwatts_dc', 'sandia_inverter', 'adr_inverter', 'pvwatts_inverter',
    'sapm_temp', 'pvsyst_temp', 'faiman_temp', 'fuentes_temp', 'noct_sam_temp', 'dc_ohms_from_percent', 'pvwatts_losses', 'no_extra_losses',
    'first_solar_spectral_loss', 'sapm_spectral_loss', 'no_spectral_loss', 'no_aoi_loss')] + ['modelchain.ModelChainResult.__setattr__']
BOUNDS = ('1 and 2 arrays (own symbolic module, mount, temperature and loss parameters each), 2 time stamps, every weather value of every array and '
          'time stamp a separate symbolic number; weather as a frame, tuple or list; all dc, ac, temperature, incidence-angle, spectral, ohmic and '
          'loss models; every optional weather column present or absent')
OUTSIDE = ('the model functions (decided by P02-P16, P30) are uninterpreted functions of all their arguments, solar position, airmass and clear sky come '
           'from a recording location; more than 2 arrays or 2 time stamps')

TIMES = pd.DatetimeIndex(['2021-06-01 12:00', '2021-06-01 13:00'], tz='Etc/GMT+7')


def _flat(v, i, names, nums):
    if isinstance(v, (pd.Series, np.ndarray)):
        nums.append(np.asarray(v, dtype=object).reshape(-1)[i if len(v) > 1 else 0])
    elif isinstance(v, dict):
        for k in sorted(v):
            names.append(k)
            _flat(v[k], i, names, nums)
    elif isinstance(v, (list, tuple)):
        for x in v:
            _flat(x, i, names, nums)
    elif v is None or isinstance(v, (str, bool, pd.Index)):
        names.append(type(v).__name__ if isinstance(v, pd.Index) else str(v))
    else:
        nums.append(v)


def _series(v):
    if isinstance(v, pd.Series):
        return v.index
    if isinstance(v, (list, tuple)):
        for x in v:
            s = _series(x)
            if s is not None:
                return s
    return None


def leaf(m, modname, attr, outs, kind='series', lo=None, hi=None):
    """replaces a model function by uninterpreted functions of all its arguments, element by element"""
    sig = inspect.signature(getattr(m.mod(modname), attr))

    def f(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        index = _series(list(b.arguments.values()))
        n = 1 if index is None else len(index)
        cols = {o: [] for o in outs}
        for i in range(n):
            names, nums = [], []
            for v in b.arguments.values():
                _flat(v, i, names, nums)
            for o in outs:
                cols[o].append(m.uf('|'.join([attr, o] + names), *nums, lo=lo, hi=hi))
        if index is None:
            r = [c[0] for c in cols.values()]
            return r[0] if kind == 'series' else dict(zip(outs, r)) if kind == 'frame' else tuple(r)
        s = {o: pd.Series(m.arr(c), index=index, dtype=object if m.symbolic else float) for o, c in cols.items()}
        return s[outs[0]] if kind == 'series' else pd.DataFrame(s) if kind == 'frame' else tuple(s.values())
    f.__signature__ = sig
    f.__name__ = attr
    m.stub(modname, attr, f)


SD = ['i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp', 'i_x', 'i_xx']
POA = ['poa_global', 'poa_direct', 'poa_diffuse', 'poa_sky_diffuse', 'poa_ground_diffuse']


def leaves(m):
    leaf(m, 'irradiance', 'get_total_irradiance', POA, 'frame')
    leaf(m, 'irradiance', 'aoi', ['aoi'], lo=0, hi=180)
    for f in ('physical', 'ashrae', 'martin_ruiz', 'sapm', 'schlick', 'interp'):
        leaf(m, 'iam', f, ['iam'])
    leaf(m, 'spectrum', 'spectral_factor_sapm', ['f'])
    leaf(m, 'spectrum', 'spectral_factor_firstsolar', ['f'])
    for f in ('sapm_cell', 'pvsyst_cell', 'faiman', 'fuentes', 'noct_sam', 'sapm_cell_from_module'):
        leaf(m, 'temperature', f, ['t'])
    leaf(m, 'pvsystem', 'sapm', SD, 'frame')
    leaf(m, 'pvsystem', 'singlediode', SD, 'frame')
    for f in ('calcparams_desoto', 'calcparams_cec', 'calcparams_pvsyst'):
        leaf(m, 'pvsystem', f, ['I_L', 'I_o', 'R_s', 'R_sh', 'nNsVth'], 'tuple')
    leaf(m, 'pvsystem', 'pvwatts_dc', ['p'])
    for f in ('sandia', 'sandia_multi', 'adr', 'pvwatts', 'pvwatts_multi'):
        leaf(m, 'inverter', f, ['ac'])
    leaf(m, 'irradiance', 'complete_irradiance', ['ghi', 'dhi', 'dni'], 'frame')


class Site:
    """a location that records how it is asked and answers with symbolic numbers"""

    def __init__(self, m):
        self.m, self.calls, self.gen, self.memo = m, [], 0, {}

    def series(self, nm, lo, hi):
        # one answer per run, however often it is asked
        if (nm, self.gen) not in self.memo:
            self.memo[nm, self.gen] = ser(self.m, ['%s_%d_%d' % (nm, self.gen, i) for i in range(len(TIMES))], lo, hi)
        return self.memo[nm, self.gen].copy()

    def get_solarposition(self, times, pressure=None, temperature=12, **kw):
        self.calls.append(('solpos', times, pressure, temperature, kw))
        self.solpos = pd.DataFrame({c: self.series('sp_' + c, 0, hi) for c, hi in (
            ('apparent_zenith', 85), ('zenith', 86), ('azimuth', 360), ('apparent_elevation', 90), ('elevation', 90))})
        return self.solpos

    def get_airmass(self, times=None, solar_position=None, model='kastenyoung1989'):
        self.calls.append(('airmass', times, solar_position, model))
        self.am = pd.DataFrame({c: self.series('am_' + c, 1, 10) for c in ('airmass_relative', 'airmass_absolute')})
        return self.am

    def get_clearsky(self, times, model='ineichen', solar_position=None, dni_extra=None, **kw):
        self.calls.append(('clearsky', times, model, solar_position))
        self.cs = pd.DataFrame({c: self.series('cs_' + c, 0, 1000) for c in ('ghi', 'dni', 'dhi')})
        return self.cs


def ser(m, names, lo, hi, nan=()):
    v = [np.nan if i in nan else m.real(nm, lo, hi) for i, nm in enumerate(names)]
    return pd.Series(m.arr(v) if m.symbolic else np.array(v, dtype=float), index=TIMES, dtype=object if m.symbolic else float)


COLS = dict(ghi=(0, 1200), dni=(0, 1000), dhi=(0, 600), temp_air=(-20, 40), wind_speed=(0, 20), albedo=(0, 1), precipitable_water=(.1, 8),
            pressure=(5e4, 1.1e5), cell_temperature=(-20, 80), module_temperature=(-20, 80), poa_global=(0, 1300), poa_direct=(0, 1000),
            poa_diffuse=(0, 700), effective_irradiance=(0, 1200), junk=(0, 1))


def frame(m, k, cols, nan=()):
    return pd.DataFrame({c: ser(m, ['%s_%d_%d' % (c, k, i) for i in range(len(TIMES))], *COLS[c],
                                nan=nan if c in ('ghi', 'poa_global', 'effective_irradiance') else ()) for c in cols})


MODULE = {
    'pvwatts': dict(pdc0=(100, 400), gamma_pdc=(-.005, 0)),
    'sapm': {k: (1, 2) for k in ('A0', 'A1', 'A2', 'A3', 'A4', 'B0', 'B1', 'B2', 'B3', 'B4', 'B5', 'C0', 'C1', 'C2', 'C3', 'Isco', 'Impo', 'Voco', 'Vmpo',
                                 'Aisc', 'Aimp', 'Bvoco', 'Mbvoc', 'Bvmpo', 'Mbvmp', 'N', 'Cells_in_Series')},
    'desoto': {k: (1, 2) for k in ('alpha_sc', 'a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s')},
    'cec': {k: (1, 2) for k in ('alpha_sc', 'a_ref', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_s', 'Adjust')},
    'pvsyst': {k: (1, 2) for k in ('gamma_ref', 'mu_gamma', 'I_L_ref', 'I_o_ref', 'R_sh_ref', 'R_sh_0', 'R_sh_exp', 'R_s', 'alpha_sc', 'EgRef',
                                   'cells_in_series')},
}
AOI = {'physical': dict(n=(1.3, 1.6), K=(2, 6), L=(.001, .004)), 'ashrae': dict(b=(.01, .1)), 'martin_ruiz': dict(a_r=(.1, .3)), 'schlick': {},
       'sapm': {'B%d' % i: (0, 1) for i in range(6)}, 'interp': {}, 'no_loss': {}}
TEMP = {'sapm': dict(a=(-4, -3), b=(-.1, -.05), deltaT=(1, 4)), 'pvsyst': dict(u_c=(20, 30), u_v=(0, 5)), 'faiman': dict(u0=(20, 30), u1=(1, 8)),
        'fuentes': dict(noct_installed=(40, 50)), 'noct_sam': dict(noct=(40, 50), module_efficiency=(.1, .2))}


def build(m, n, dc='pvwatts', ac='pvwatts', aoi='physical', spec='no_loss', temp='sapm', ohm='no_loss', loss='no_loss', fd=False, explicit=True, **kw):
    """a chain, its arrays and the location"""
    P = m.pv.pvsystem
    arrays = []
    for k in range(n):
        mod = {c: m.real('mod_%s_%d' % (c, k), *b) for c, b in {**MODULE[dc], **AOI[aoi]}.items()}
        if aoi == 'interp':
            mod.update(theta_ref=[0, 50 + k, 90], iam_ref=[1, .9, 0])
        if fd and k == 0:
            mod['FD'] = m.real('FD_%d' % k, .5, 1)
        if spec == 'first_solar':
            mod['first_solar_spectral_coefficients'] = tuple(m.reals('fs_%d_' % k, 6, -1, 1))
        if ohm != 'no_loss':
            mod.update(V_mp_ref=m.real('vmp_%d' % k, 10, 60), I_mp_ref=m.real('imp_%d' % k, 1, 10))
        t = {c: m.real('t_%s_%d' % (c, k), *b) for c, b in TEMP[temp].items()}
        arrays.append(P.Array(P.FixedMount(m.real('tilt_%d' % k, 0, 90), m.real('az_%d' % k, 0, 360)), module_parameters=mod, albedo=m.real('alb_%d' % k, 0, 1),
                              temperature_model_parameters=t, modules_per_string=2 + k, strings=3 + 2 * k,
                              array_losses_parameters=dict(dc_ohmic_percent=m.real('ohmp_%d' % k, 0, 5))))
    inv = {'sandia': {c: m.real('inv_' + c, 1, 2) for c in ('C0', 'C1', 'C2', 'C3', 'Paco', 'Pdco', 'Vdco', 'Pso', 'Pnt')},
           'adr': {c: m.real('inv_' + c, 1, 2) for c in ('ADRCoefficients', 'Pnom', 'Vnom')}, 'pvwatts': {'pdc0': m.real('inv_pdc0', 100, 900)}}[ac]
    s = P.PVSystem(arrays=arrays, inverter_parameters=inv, losses_parameters={c: m.real('loss_' + c, 0, 10) for c in ('soiling', 'wiring')})
    site = Site(m)
    if explicit:
        kw.update(dc_model=dc, ac_model=ac, aoi_model=aoi, temperature_model=temp)
    mc = m.pv.modelchain.ModelChain(s, site, spectral_model=spec, dc_ohmic_model=ohm, losses_model=loss, **kw)
    return mc, s, site


def per(x, n):
    return list(x) if isinstance(x, tuple) else [x] * n


def same(m, label, got, want):
    if isinstance(want, pd.DataFrame):
        m.true(label + ': columns', isinstance(got, pd.DataFrame) and set(got.columns) == set(want.columns))
        m.true(label + ': index', got.index.equals(want.index))
        for c in want.columns:
            m.eq('%s: %s' % (label, c), got[c], want[c])
    else:
        if isinstance(want, pd.Series):
            m.true(label + ': index', isinstance(got, pd.Series) and got.index.equals(want.index))
        m.eq(label, got, want)


def per_array(m, label, got, want, wrap):
    """got is one result, or a tuple of one per array"""
    n = len(want)
    m.true(label + ': form', isinstance(got, tuple) == (n > 1 or wrap))
    got = got if isinstance(got, tuple) else (got,)
    m.true(label + ': number', len(got) == n)
    for k in range(n):
        same(m, '%s of array %d' % (label, k), got[k], want[k])


REQUIRED = {'weather': ('ghi', 'dni', 'dhi'), 'poa': ('poa_global', 'poa_direct', 'poa_diffuse'), 'eff': ('effective_irradiance',)}


def run(m, n=1, form='frame', entry='weather', cols=(), cell=(), nan=(), fd=False, scale=True, transposition='haydavies', airmass_model='kastenyoung1989',
        spm='nrel_numpy', prior=(), **models):
    leaves(m)
    mc, s, site = build(m, n, fd=fd, transposition_model=transposition, airmass_model=airmass_model, solar_position_method=spm, **models)
    arrays = s.arrays
    P, T = m.pv.pvsystem, m.pv.temperature
    base = REQUIRED[entry]
    nf = 1 if form == 'frame' else n
    frames = [frame(m, k, tuple(base) + tuple(cols) + tuple(c[0] for c in cell if k in c[1]) + ('junk',), nan) for k in range(nf)]
    data = frames[0] if form == 'frame' else tuple(frames) if form == 'tuple' else list(frames)
    before = [f.copy() for f in frames]
    entries = {'weather': mc.run_model, 'poa': mc.run_model_from_poa, 'eff': mc.run_model_from_effective_irradiance}
    for i, (pe, pc, pform) in enumerate(prior):
        # earlier runs with other data leave no trace
        fs = [frame(m, 10 * (i + 1) + k, REQUIRED[pe] + pc) for k in range(1 if pform == 'frame' else n)]
        entries[pe](fs[0] if pform == 'frame' else tuple(fs))
        site.gen += 1
    go = entries[entry]
    m.true('run returns the chain', go(data) is mc)
    r = mc.results
    wrap = form != 'frame'
    w = [before[0 if nf == 1 else k] for k in range(n)]
    for f, b in zip(frames, before):
        m.true('input columns untouched', list(f.columns) == list(b.columns))
        for c in b.columns:
            m.eq('input untouched: ' + c, f[c], b[c])
    zero = pd.Series([0.0] * len(TIMES), index=TIMES)
    air = [x['temp_air'] if 'temp_air' in x else zero + 20 for x in w]
    wind = [x['wind_speed'] if 'wind_speed' in x else zero for x in w]
    m.true('times', r.times.equals(TIMES))
    one = [P.PVSystem(arrays=[a], inverter_parameters=s.inverter_parameters, losses_parameters=s.losses_parameters) for a in arrays]

    if entry != 'eff':
        sp = [c for c in site.calls if c[0] == 'solpos'][-1]
        m.true('solar position of the weather times', sp[1].equals(TIMES) and sp[4].get('method') == spm)
        if 'temp_air' in cols:
            m.eq('solar position uses the air temperature', sp[3], w[0]['temp_air'])
        if 'pressure' in cols:
            m.eq('solar position uses the pressure', sp[2], w[0]['pressure'])
        same(m, 'solar position', r.solar_position, site.solpos)
        am = [c for c in site.calls if c[0] == 'airmass'][-1]
        m.true('airmass of the solar position', am[2] is not None and am[3] == airmass_model)
        same(m, 'airmass from', am[2], site.solpos)
        same(m, 'airmass', r.airmass, site.am)
        z, az = site.solpos['apparent_zenith'], site.solpos['azimuth']
        aoi = [a.get_aoi(z, az) for a in arrays]
        per_array(m, 'aoi', r.aoi, aoi, wrap)
    if entry == 'weather':
        alb = [x['albedo'] if 'albedo' in x else a.albedo for x, a in zip(w, arrays)]
        total = [arrays[k].get_irradiance(z, az, w[k]['dni'], w[k]['ghi'], w[k]['dhi'], albedo=alb[k], airmass=site.am['airmass_relative'],
                                          model=transposition) for k in range(n)]
        for k, x in enumerate(per(r.albedo, n)):
            m.eq('albedo of array %d' % k, x, alb[k])
    else:
        total = [x[[c for c in ('poa_global', 'poa_direct', 'poa_diffuse') if c in x]] for x in w]
    if entry == 'eff':
        eff = [x['effective_irradiance'] for x in w]
    else:
        per_array(m, 'plane of array irradiance', r.total_irrad, total, wrap)
        aoi_model, spec = models.get('aoi', 'physical'), models.get('spec', 'no_loss')
        if aoi_model == 'no_loss':
            iam = [1.0] * n
        else:
            iam = [arrays[k].get_iam(aoi[k], aoi_model) for k in range(n)]
        if spec == 'sapm':
            mod = [one[k].sapm_spectral_loss(site.am['airmass_absolute']) for k in range(n)]
        elif spec == 'first_solar':
            mod = [one[k].first_solar_spectral_loss(w[k]['precipitable_water'], site.am['airmass_absolute']) for k in range(n)]
        else:
            mod = [1] * n
        for k in range(n):
            same(m, 'incidence modifier of array %d' % k, per(r.aoi_modifier, n)[k], iam[k])
            same(m, 'spectral modifier of array %d' % k, per(r.spectral_modifier, n)[k], mod[k])
        eff = [mod[k] * (total[k]['poa_direct'] * iam[k] + arrays[k].module_parameters.get('FD', 1.0) * total[k]['poa_diffuse']) for k in range(n)]
    per_array(m, 'effective irradiance', r.effective_irradiance, eff, wrap)

    temp = models.get('temp', 'sapm')
    # without POA irradiance in every array the effective irradiance stands for it
    poa = [t['poa_global'] for t in total] if all('poa_global' in t for t in total) else eff
    tc = []
    for k in range(n):
        x = w[k]
        if 'cell_temperature' in x:
            tc.append(x['cell_temperature'])
        elif 'module_temperature' in x and temp == 'sapm':
            tc.append(T.sapm_cell_from_module(x['module_temperature'], poa[k], arrays[k].temperature_model_parameters['deltaT']))
        else:
            tc.append(arrays[k].get_cell_temperature(poa[k], air[k], wind[k], temp, effective_irradiance=eff[k] if temp == 'noct_sam' else None))
    per_array(m, 'cell temperature', r.cell_temperature, tc, wrap)

    dc, ac = models.get('dc', 'pvwatts'), models.get('ac', 'pvwatts')
    if dc == 'pvwatts':
        out = [one[k].pvwatts_dc(eff[k], tc[k]) * (arrays[k].modules_per_string * arrays[k].strings) for k in range(n)]
    elif dc == 'sapm':
        out = [one[k].scale_voltage_current_power(one[k].sapm(eff[k], tc[k])) for k in range(n)]
    else:
        prm = [getattr(one[k], 'calcparams_' + dc)(eff[k], tc[k]) for k in range(n)]
        for k in range(n):
            d = per(r.diode_params, n)[k]
            for c, v in zip(('I_L', 'I_o', 'R_s', 'R_sh', 'nNsVth'), prm[k]):
                m.eq('diode parameter %s of array %d' % (c, k), d[c], v)
        out = [one[k].scale_voltage_current_power(one[k].singlediode(*prm[k])).fillna(0) for k in range(n)]
    if models.get('ohm', 'no_loss') != 'no_loss':
        res = []
        for k in range(n):
            res.append(one[k].dc_ohms_from_percent() * out[k]['i_mp'] ** 2)
            out[k] = out[k].assign(p_mp=out[k]['p_mp'] - res[k])
        per_array(m, 'ohmic losses', r.dc_ohmic_losses, res, wrap)
    f = 1
    if models.get('loss', 'no_loss') == 'pvwatts':
        f = (100 - s.pvwatts_losses()) / 100
        out = [o * f for o in out]
    m.eq('losses', r.losses, f)
    per_array(m, 'dc', r.dc, out, wrap)
    if ac == 'pvwatts':
        want = s.get_ac('pvwatts', tuple(o['p_mp'] if isinstance(o, pd.DataFrame) else o for o in out)).fillna(0)
    else:
        want = s.get_ac(ac, tuple(o['p_mp'] for o in out), v_dc=tuple(o['v_mp'] for o in out))
    same(m, 'ac', r.ac, want)
    wt = per(r.weather, n)
    for k in range(n):
        for c in ('ghi', 'dni', 'dhi', 'precipitable_water'):
            if c in w[k]:
                m.eq('reported %s' % c, wt[k][c], w[k][c])
        m.eq('reported air temperature', wt[k]['temp_air'], air[k])
        m.eq('reported wind speed', wt[k]['wind_speed'], wind[k])
    for i in range(len(TIMES)):
        m.obs('ac', list(r.ac)[i])


def complete(m, n, form, given, clearsky):
    """the missing component of each array's weather comes from its own two components"""
    leaves(m)
    mc, s, site = build(m, n, clearsky_model=clearsky)
    frames = [frame(m, k, tuple(given) + ('temp_air', 'junk')) for k in range(n)]
    data = frames[0] if form == 'frame' else tuple(frames) if form == 'tuple' else list(frames)
    before = [f.copy() for f in frames]
    m.true('returns the chain', mc.complete_irradiance(data) is mc)
    w = mc.results.weather
    m.true('form', isinstance(w, tuple) == (form != 'frame'))
    w = w if isinstance(w, tuple) else (w,)
    sp = [c for c in site.calls if c[0] == 'solpos'][-1]
    m.true('solar position of the weather times', sp[1].equals(TIMES) and sp[4].get('method') == 'nrel_numpy')
    cs = [c for c in site.calls if c[0] == 'clearsky']
    full = set(given) == {'ghi', 'dhi', 'dni'}
    if set(given) == {'ghi', 'dhi'}:
        m.true('clear sky of the weather times', bool(cs) and all(c[1].equals(TIMES) and c[2] == clearsky and c[3] is not None for c in cs))
        same(m, 'clear sky of the solar position', cs[-1][3], site.solpos)
    for k in range(n):
        b = before[k]
        for f in (frames[k],):
            m.true('input columns untouched', list(f.columns) == list(b.columns))
        kw = {c: b[c] if c in given else None for c in ('ghi', 'dhi', 'dni')}
        if set(given) == {'ghi', 'dhi'}:
            kw['dni_clear'] = site.cs['dni']
        e = None if full else m.pv.irradiance.complete_irradiance(solar_zenith=site.solpos['zenith'], **kw)
        for c in ('ghi', 'dhi', 'dni'):
            same(m, '%s of array %d' % (c, k), w[k][c], b[c] if c in given else e[c])
        for c in ('temp_air', 'junk'):
            same(m, '%s of array %d' % (c, k), w[k][c], b[c])
    m.obs('ghi', list(w[0]['ghi'])[0])


def reject(m, n):
    """input that does not fit the system is rejected before anything is computed"""
    leaves(m)
    mc, s, site = build(m, n, aoi='no_loss')
    for entry in ('weather', 'poa', 'eff'):
        go = {'weather': mc.run_model, 'poa': mc.run_model_from_poa, 'eff': mc.run_model_from_effective_irradiance}[entry]
        fs = [frame(m, k, REQUIRED[entry]) for k in range(n + 1)]  # distinct columns per entry
        for wrong in (n + 1, n - 1):
            m.raises('%s: %d frames for %d arrays' % (entry, wrong, n), ValueError, go, tuple(fs[:wrong]))
            m.raises('%s: list of %d frames for %d arrays' % (entry, wrong, n), ValueError, go, fs[:wrong])
        if n > 1:
            moved = fs[1].copy()
            moved.index = moved.index + pd.Timedelta('1h')
            m.raises('%s: different times' % entry, ValueError, go, (fs[0], moved))
            if entry != 'weather':
                m.raises('%s: one frame for several arrays' % entry, TypeError, go, fs[0])
        for c in REQUIRED[entry]:
            for k in range(n):
                part = [f.drop(columns=c) if i == k else f for i, f in enumerate(fs[:n])]
                m.raises('%s: array %d lacks %s' % (entry, k, c), ValueError, go, tuple(part))
                if n == 1:
                    m.raises('%s: frame lacks %s' % (entry, c), ValueError, go, part[0])


def custom(m, stage, n):
    """a custom model sees the results of the earlier stages and what it sets is what the later stages use"""
    leaves(m)
    got = {}

    def model(mc):
        r = mc.results
        got.update({k: getattr(r, k) for k in ('aoi_modifier', 'spectral_modifier', 'effective_irradiance', 'cell_temperature', 'dc', 'ac', 'losses')})
        own = [ser(m, ['own_%d_%d' % (k, i) for i in range(2)], .1, 1) for k in range(n)]
        v = own[0] if n == 1 else tuple(own)
        if stage in ('losses', 'dc_ohmic'):
            v = tuple(d * o for d, o in zip(per(r.dc, n), own)) if n > 1 else r.dc * own[0]
        if stage == 'ac':
            v = own[0]
        got['own'] = v
        setattr(r, {'aoi': 'aoi_modifier', 'spectral': 'spectral_modifier', 'temperature': 'cell_temperature', 'dc': 'dc', 'dc_ohmic': 'dc',
                    'losses': 'dc', 'ac': 'ac'}[stage], v)
        return mc
    P = m.pv.pvsystem
    mc, s, site = build(m, n)
    kw = dict(aoi_model='no_loss', dc_model='pvwatts', ac_model='pvwatts', temperature_model='sapm', spectral_model='no_loss')
    kw[{'aoi': 'aoi_model', 'spectral': 'spectral_model', 'temperature': 'temperature_model', 'dc': 'dc_model', 'dc_ohmic': 'dc_ohmic_model',
        'losses': 'losses_model', 'ac': 'ac_model'}[stage]] = model
    kw.setdefault('losses_model', 'pvwatts')
    mc = m.pv.modelchain.ModelChain(s, site, **kw)
    fs = [frame(m, k, REQUIRED['poa'] + ('temp_air', 'wind_speed')) for k in range(n)]
    mc.run_model_from_poa(fs[0] if n == 1 else tuple(fs))
    r = mc.results
    own = [got['own']] if n == 1 or stage == 'ac' else list(got['own'])
    one = [P.PVSystem(arrays=[a]) for a in s.arrays]
    eff = []
    for k in range(n):
        mult = own[k] if stage in ('aoi', 'spectral') else 1
        d, f = fs[k]['poa_direct'], fs[k]['poa_diffuse']
        eff.append(d * mult + f if stage == 'aoi' else mult * (d + f))
    per_array(m, 'effective irradiance', r.effective_irradiance, eff, False)
    tc = [own[k] if stage == 'temperature' else s.arrays[k].get_cell_temperature(fs[k]['poa_global'], fs[k]['temp_air'], fs[k]['wind_speed'], 'sapm')
          for k in range(n)]
    per_array(m, 'cell temperature', r.cell_temperature, tc, False)
    out = [own[k] if stage == 'dc' else one[k].pvwatts_dc(eff[k], tc[k]) * (s.arrays[k].modules_per_string * s.arrays[k].strings) for k in range(n)]
    loss = (100 - s.pvwatts_losses()) / 100
    if stage in ('losses', 'dc_ohmic'):
        seen = got['dc'] if n > 1 else (got['dc'],)
        for k in range(n):
            out[k] = own[k]
    if stage != 'losses':
        out = [o * loss for o in out]
    if stage == 'dc_ohmic' or stage == 'losses' or stage == 'dc':
        pass
    for k in range(n):
        if stage not in ('dc_ohmic', 'dc', 'losses'):
            m.eq('dc of array %d' % k, per(r.dc, n)[k], out[k])
    if stage in ('aoi', 'spectral'):
        m.true('no later result before', got['effective_irradiance'] is None and got['dc'] is None and got['ac'] is None)
    if stage == 'temperature':
        m.true('irradiance before temperature', got['effective_irradiance'] is not None and got['dc'] is None)
    if stage == 'dc':
        m.true('temperature before dc', got['cell_temperature'] is not None and got['ac'] is None)
    if stage == 'ac':
        m.true('losses before ac', got['losses'] is not None)
        m.eq('ac', r.ac, own[0])
    else:
        m.eq('ac', r.ac, s.get_ac('pvwatts', r.dc).fillna(0))


ALL = ('temp_air', 'wind_speed', 'albedo', 'precipitable_water', 'pressure')


def jobs(tier):
    def J(name, **p):
        return Job(name, run, params=p)
    forms = [(1, 'frame'), (1, 'tuple'), (2, 'frame'), (2, 'tuple'), (2, 'list')]
    for n, form in forms:
        t = '%d arrays, %s' % (n, form)
        for entry in ('weather', 'poa', 'eff'):
            if entry != 'weather' and n > 1 and form == 'frame':
                continue
            yield J('%s, %s, all columns' % (entry, t), n=n, form=form, entry=entry, cols=ALL, fd=True, loss='pvwatts')
            yield J('%s, %s, required columns' % (entry, t), n=n, form=form, entry=entry)
            yield J('%s, %s, sapm' % (entry, t), n=n, form=form, entry=entry, cols=ALL, dc='sapm', ac='sandia', aoi='sapm', spec='sapm', temp='sapm', ohm='dc_ohms_from_percent',
                    loss='pvwatts')
            for tn, tv in (('cell', (('cell_temperature', (0, 1)),)), ('module', (('module_temperature', (0, 1)),)), ('cell 0', (('cell_temperature', (0,)),)),
                           ('cell 1', (('cell_temperature', (1,)),)), ('module 1', (('module_temperature', (1,)),)),
                           ('module 0, cell 1', (('module_temperature', (0,)), ('cell_temperature', (1,)))),
                           ('both', (('module_temperature', (0, 1)), ('cell_temperature', (0, 1))))):
                if n > 1 or tn in ('cell', 'module', 'both'):
                    yield J('%s, %s, %s temperature' % (entry, t, tn), n=n, form=form, entry=entry, cell=tv, cols=('temp_air',))
            for temp in ('pvsyst', 'faiman', 'fuentes', 'noct_sam'):
                yield J('%s, %s, %s, module temperature' % (entry, t, temp), n=n, form=form, entry=entry, temp=temp, cols=('wind_speed', 'module_temperature'))
                yield J('%s, %s, %s' % (entry, t, temp), n=n, form=form, entry=entry, temp=temp, cols=ALL, nan=(1,))
            for dc in ('desoto', 'cec', 'pvsyst'):
                yield J('%s, %s, %s' % (entry, t, dc), n=n, form=form, entry=entry, dc=dc, cols=ALL, ohm='dc_ohms_from_percent' if dc != 'pvsyst' else 'no_loss',
                        ac='sandia' if dc != 'cec' or n > 1 else 'adr', loss='pvwatts' if dc == 'cec' else 'no_loss', aoi='martin_ruiz', spec='first_solar' if entry != 'eff' else 'no_loss')
                yield J('%s, %s, %s, missing irradiance' % (entry, t, dc), n=n, form=form, entry=entry, dc=dc, nan=(1,), ac='sandia')
            yield J('%s, %s, missing irradiance' % (entry, t), n=n, form=form, entry=entry, nan=(0,), loss='pvwatts')
        for aoi in AOI:
            yield J('incidence %s, %s' % (aoi, t), n=n, form=form, aoi=aoi, fd=True, transposition='perez', airmass_model='simple', spm='ephemeris')
        yield J('effective irradiance with poa, %s' % t, n=n, form='tuple' if form == 'frame' and n > 1 else form, entry='eff', cols=('poa_global', 'temp_air'))
        yield J('effective irradiance with poa, module temperature, %s' % t, n=n, form='tuple' if form == 'frame' and n > 1 else form, entry='eff',
                cols=('poa_global', 'module_temperature'))
        yield J('effective irradiance, one array with poa, %s' % t, n=n, form='tuple' if n > 1 else form, entry='eff', cell=(('poa_global', (0,)),))
        for i, (prior, t2) in enumerate((((('weather', ALL, form),), 'weather'), ((('weather', ('cell_temperature',), form),), 'weather run after supplied temperature'),
                           ((('eff', ('poa_global', 'module_temperature'), form),), 'after effective irradiance'),
                           ((('weather', ALL, form), ('poa', (), form)), 'after two runs'))):
            for entry in ('weather', 'poa', 'eff'):
                if n > 1 and form == 'frame' and (entry != 'weather' or any(x[0] != 'weather' for x in prior)):
                    continue
                yield J('%s again, %s, %s' % (entry, t, t2), n=n, form=form, entry=entry, prior=prior, loss='pvwatts', dc='cec', ac='sandia', temp='sapm',
                        ohm='dc_ohms_from_percent')
                if n > 1:
                    yield J('%s again, %s, %s, pvwatts' % (entry, t, t2), n=n, form=form, entry=entry, prior=prior, loss='pvwatts', temp='noct_sam')
        if not (n > 1 and form == 'frame'):
            for given in (('ghi', 'dhi'), ('dni', 'dhi'), ('dni', 'ghi'), ('ghi', 'dni', 'dhi')):
                yield Job('complete %s, %s' % ('+'.join(given), t), complete, params=dict(n=n, form=form, given=given, clearsky='haurwitz'))
    for n in (1, 2):
        yield Job('unsuitable input, %d arrays' % n, reject, params=dict(n=n))
        for stage in ('aoi', 'spectral', 'temperature', 'dc', 'dc_ohmic', 'losses', 'ac'):
            yield Job('custom %s model, %d arrays' % (stage, n), custom, params=dict(stage=stage, n=n))
