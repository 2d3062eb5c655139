import numpy as np
import pandas as pd
from pvsym.cli import Job
PROPERTY = 'P32'

Z, A, T, AZ = (0, 100), (0, 360), (0, 90), (0, 360)
GHI, DNI, DHI, EX = (0, 1300), (0, 1100), (0, 600), (1300, 1420)
TA, WS, AM, PW = (-30, 50), (0, 20), (0.5, 10), (0.2, 5)
SNL = dict(Paco=250., Pdco=259.6, Vdco=40., Pso=2.09, C0=-2.5e-5, C1=-9e-5, C2=7e-4, C3=-0.015, Pnt=0.02)
ADR = dict(Pnom=1000., Vnom=400., Vmax=500., Vmin=300., Vdcmax=500., MPPTHi=500., MPPTLow=300., Pacmax=950., Pnt=1.,
           ADRCoefficients=[.01, .02, .001, .01, .001, .001, .01, .001, .001])
SAPM = dict(A0=.93, A1=.07, A2=-.01, A3=.0005, A4=-1e-5, B0=1., B1=-.0024, B2=3e-4, B3=-1.2e-5, B4=2e-7, B5=-1e-9,
            C0=1.01, C1=-.01, C2=.3, C3=-8., C4=1., C5=.01, C6=1.1, C7=-.1, Isco=5.5, Impo=5., Voco=60., Vmpo=48.,
            Aisc=5e-4, Aimp=1e-4, Bvoco=-.2, Mbvoc=0., Bvmpo=-.2, Mbvmp=0., N=1.1, Cells_in_Series=96, IXO=5., IXXO=3.5, FD=1.)
# name, path below pvlib, elementwise arguments (ranges), other keyword arguments
TABLE = [
    ('aoi_projection', 'irradiance.aoi_projection', [T, AZ, Z, A], {}),
    ('aoi', 'irradiance.aoi', [T, AZ, Z, A], {}),
    ('beam_component', 'irradiance.beam_component', [T, AZ, Z, A, DNI], {}),
    ('poa_components', 'irradiance.poa_components', [(0, 180), DNI, DHI, DHI], {}),
    ('get_ground_diffuse', 'irradiance.get_ground_diffuse', [T, GHI], dict(albedo=.3)),
    ('isotropic', 'irradiance.isotropic', [T, DHI], {}),
    ('klucher', 'irradiance.klucher', [T, AZ, DHI, (1, 1300), (0, 89), A], {}),
    ('haydavies', 'irradiance.haydavies', [T, AZ, DHI, DNI, EX, Z, A], {}),
    ('haydavies components', 'irradiance.haydavies', [T, AZ, DHI, DNI, EX, Z, A], dict(return_components=True)),
    ('reindl', 'irradiance.reindl', [T, AZ, DHI, DNI, (1, 1300), EX, Z, A], {}),
    ('king', 'irradiance.king', [T, DHI, GHI, Z], {}),
    ('clearness_index', 'irradiance.clearness_index', [GHI, Z, EX], {}),
    ('clearsky_index', 'irradiance.clearsky_index', [GHI, GHI], {}),
    ('complete dni', 'irradiance.dni', [GHI, DHI, Z], {}),
    ('ashrae', 'iam.ashrae', [(-180, 180)], {}),
    ('martin_ruiz', 'iam.martin_ruiz', [(-180, 180)], {}),
    ('sapm iam', 'iam.sapm', [(0, 180)], dict(module=SAPM)),
    ('schlick', 'iam.schlick', [(-180, 180)], {}),
    ('physical', 'iam.physical', [(-89, 89)], {}),
    ('sapm_cell', 'temperature.sapm_cell', [GHI, TA, WS], dict(a=-3.5, b=-.06, deltaT=3)),
    ('pvsyst_cell', 'temperature.pvsyst_cell', [GHI, TA, WS], {}),
    ('faiman', 'temperature.faiman', [GHI, TA, WS], {}),
    ('faiman_rad', 'temperature.faiman_rad', [GHI, TA, WS], dict(ir_down=300)),
    ('ross', 'temperature.ross', [GHI, TA], dict(noct=45)),
    ('noct_sam', 'temperature.noct_sam', [(1, 1300), TA, WS], dict(noct=45, module_efficiency=.2)),
    ('generic_linear', 'temperature.generic_linear', [GHI, TA, WS], dict(u_const=25., du_wind=6., module_efficiency=.2, absorptance=.9)),
    ('kasten airmass', 'atmosphere.get_relative_airmass', [(0, 95)], {}),
    ('simple airmass', 'atmosphere.get_relative_airmass', [(0, 95)], dict(model='simple')),
    ('absolute airmass', 'atmosphere.get_absolute_airmass', [(1, 30), (50000, 110000)], {}),
    ('pressure', 'atmosphere.alt2pres', [(-400, 8000)], {}),
    ('wind power law', 'atmosphere.windspeed_powerlaw', [WS], dict(wind_speed_reference=None)),
    ('inland water', 'albedo.inland_water_dvoracek', [(-90, 90)], dict(surface_condition='clear_water_no_waves')),
    ('inverter sandia', 'inverter.sandia', [(10, 60), (0, 300)], dict(inverter=SNL)),
    ('inverter adr', 'inverter.adr', [(200, 600), (0, 1200)], dict(inverter=ADR)),
    ('inverter pvwatts', 'inverter.pvwatts', [(0, 5000)], dict(pdc0=4000.)),
    ('pvwatts_dc', 'pvsystem.pvwatts_dc', [GHI, TA], dict(pdc0=100., gamma_pdc=-.003)),
    ('sapm dc', 'pvsystem.sapm', [GHI, TA], dict(module=SAPM)),
    ('calcparams_desoto', 'pvsystem.calcparams_desoto', [(1, 1300), TA],
     dict(alpha_sc=.003, a_ref=1.6, I_L_ref=6., I_o_ref=1e-9, R_sh_ref=300., R_s=.4)),
    ('calcparams_pvsyst', 'pvsystem.calcparams_pvsyst', [GHI, TA],
     dict(alpha_sc=.003, gamma_ref=1.1, mu_gamma=-.0003, I_L_ref=6., I_o_ref=1e-9, R_sh_ref=300., R_sh_0=1200., R_s=.4, cells_in_series=60)),
    ('simple efficiency', 'transformer.simple_efficiency', [(0, 2000)], dict(no_load_loss=.002, load_loss=.01, transformer_rating=2000.)),
    ('spectral sapm', 'spectrum.spectral_factor_sapm', [AM], dict(module=SAPM)),
    ('spectral first solar', 'spectrum.spectral_factor_firstsolar', [(0.05, 9), (0.3, 12)], dict(module_type='cdte')),
    ('haurwitz', 'clearsky.haurwitz', [Z], {}),
    ('simplified solis', 'clearsky.simplified_solis', [(-5, 90)], {}),
    ('ineichen', 'clearsky.ineichen', [Z, AM, (1, 8)], {}),
    ('surface orientation', 'tracking.calc_surface_orientation', [(-90, 90)], dict(axis_tilt=10., axis_azimuth=180.)),
    ('projected zenith', 'shading.projected_solar_zenith_angle', [(0, 90), A], dict(axis_tilt=5., axis_azimuth=180.)),
    ('masking angle', 'shading.masking_angle', [(1, 90)], dict(gcr=.4, slant_height=.5)),
    ('soiling free dc loss', 'snow.dc_loss_nrel', [(0, 1)], dict(num_strings=4)),
    ('declination spencer', 'solarposition.declination_spencer71', [(1, 366)], {}),
    ('equation of time', 'solarposition.equation_of_time_spencer71', [(1, 366)], {}),
    ('analytical zenith', 'solarposition.solar_zenith_analytical', [(-1.5, 1.5), (-3, 3), (-.4, .4)], {}),
    ('perez', 'irradiance.perez', [(30, 30), (180, 180), DHI, (1, 1100), (1360, 1360), (40, 40), (200, 200), (1.3, 1.3)], {}),
    ('perez components', 'irradiance.perez', [(30, 30), (180, 180), DHI, (1, 1100), (1360, 1360), (40, 40), (200, 200), (1.3, 1.3)], dict(return_components=True)),
    ('extra radiation', 'irradiance.get_extra_radiation', [(1, 366)], {}),
    ('extra radiation asce', 'irradiance.get_extra_radiation', [(1, 366)], dict(method='asce')),
    ('independent clearness', 'irradiance.clearness_index_zenith_independent', [(0, 2), (1, 30)], {}),
    ('erbs', 'irradiance.erbs', [GHI, (50, 50), (100, 100)], {}),
    ('erbs_driesse', 'irradiance.erbs_driesse', [GHI, (50, 50), (100, 100)], {}),
    ('boland', 'irradiance.boland', [GHI, (50, 50), (100, 100)], {}),
    ('orgill_hollands', 'irradiance.orgill_hollands', [GHI, (50, 50), (100, 100)], {}),
    ('louche', 'irradiance.louche', [GHI, (50, 50), (100, 100)], {}),
    ('disc', 'irradiance.disc', [GHI, (50, 50), (100, 100)], {}),
    ('boland night', 'irradiance.boland', [GHI, (95, 95), (100, 100)], {}),
    ('louche night', 'irradiance.louche', [GHI, (95, 95), (100, 100)], {}),
    ('disc night', 'irradiance.disc', [GHI, (95, 95), (100, 100)], {}),
    ('sapm_module', 'temperature.sapm_module', [GHI, TA, WS], dict(a=-3.5, b=-.06)),
    ('sapm_cell_from_module', 'temperature.sapm_cell_from_module', [TA, GHI], dict(deltaT=3)),
    ('calcparams_cec', 'pvsystem.calcparams_cec', [(1, 1300), TA],
     dict(alpha_sc=.003, a_ref=1.6, I_L_ref=6., I_o_ref=1e-9, R_sh_ref=300., R_s=.4, Adjust=8.)),
    ('bishop88', 'singlediode.bishop88', [(-5, 40), (0, 10), (1e-10, 1e-6), (0, 1), (50, 1000), (1, 3)], dict(gradients=True)),
    ('bishop88 thin film', 'singlediode.bishop88', [(-5, 40), (0, 10), (1e-10, 1e-6), (0, 1), (50, 1000), (1, 3)], dict(d2mutau=1.2, NsVbi=60.)),
    ('shaded_fraction1d', 'shading.shaded_fraction1d', [(0, 89), (200, 200)], dict(axis_azimuth=180., shaded_row_rotation=30., collector_width=2., pitch=4.)),
    ('ground_angle', 'shading.ground_angle', [(0, 90)], dict(gcr=.4, slant_height=.5)),
    ('sky_diffuse_passias', 'shading.sky_diffuse_passias', [(0, 90)], {}),
    ('spectral pvspec', 'spectrum.spectral_factor_pvspec', [(1, 10), (.1, 1)], dict(module_type='multisi')),
    ('spectral jrc', 'spectrum.spectral_factor_jrc', [(1, 10), (.1, 1)], dict(module_type='cdte')),
    ('spectral caballero', 'spectrum.spectral_factor_caballero', [PW, (1, 10), (.05, .6)], dict(module_type='cdte')),
    ('bird', 'clearsky.bird', [(50, 50), (1.5, 1.5), (.05, .5), (.1, .1), (2, 2)], {}),
    ('mismatch deline', 'bifacial.loss_models.power_mismatch_deline', [(0, 1)], {}),
    ('analytical azimuth', 'solarposition.solar_azimuth_analytical', [(.7, .7), (-3, 3), (.2, .2), (.9, .9)], {}),
    ('efficiency adr', 'pvarray.pvefficiency_adr', [(1, 1300), TA], dict(k_a=100., k_d=-6., tc_d=.02, k_rs=.05, k_rsh=.1)),
    ('huld', 'pvarray.huld', [(1, 1300), TA], dict(pdc0=100., cell_type='csi')),
    ('vf_row_sky_2d', 'bifacial.utils.vf_row_sky_2d', [(0, 180)], dict(gcr=.4, x=.5)),
    ('vf_ground_sky', 'bifacial.utils.vf_row_ground_2d', [(0, 180)], dict(gcr=.4, x=.5)),
    ('infinite sheds shade', 'bifacial.infinite_sheds._shaded_fraction', [(0, 89), A, (0, 180), AZ], dict(gcr=.4)),
    ('gueymard94_pw', 'atmosphere.gueymard94_pw', [TA, (0, 100)], {}),
    ('rh_from_tdew', 'atmosphere.rh_from_tdew', [TA, TA], {}),
    ('tdew_from_rh', 'atmosphere.tdew_from_rh', [TA, (1, 100)], {}),
    ('kasten96_lt', 'atmosphere.kasten96_lt', [(1, 30), PW, (.05, .5)], {}),
    ('bird_hulstrom80', 'atmosphere.bird_hulstrom80_aod_bb', [(.05, .5), (.05, .5)], {}),
    ('angstrom', 'atmosphere.angstrom_aod_at_lambda', [(.05, .5), (300, 1000)], {}),
]
HALF = {'perez', 'perez components', 'shaded_fraction1d'}  # many branches: the second element is a fixed number
SERIES_ONLY = {'complete dni', 'haurwitz'}  # documented for series only
FUNCTIONS = sorted({p for _, p, _, _ in TABLE})
BOUNDS = 'two elements per array and series; each argument anywhere in its physical range; a missing second element in a further run'
OUTSIDE = 'broadcasting of unequal shapes, two-dimensional arrays, functions not listed, containers not exercised by the listed arguments'


def cells(m, r, k):
    """the values at element k of a result, by name"""
    if isinstance(r, (pd.DataFrame,)):
        return {c: r[c].iloc[k] for c in r.columns}
    if isinstance(r, dict):
        return {c: pick(m, v, k) for c, v in r.items()}
    if isinstance(r, tuple):
        return {i: pick(m, v, k) for i, v in enumerate(r)}
    return {'': pick(m, r, k)}


def pick(m, v, k):
    if isinstance(v, pd.Series):
        return v.iloc[k]
    if k is None or np.ndim(v) == 0:
        return m.item(v)
    return v[k]


def resolve(m, path):
    f = m.pv
    for p in path.split('.'):
        f = getattr(f, p)
    return f


def check(m, row, kind):
    name, path, ranges, kw = TABLE[row]
    f = resolve(m, path)
    if path == 'atmosphere.windspeed_powerlaw':
        kw = dict(height_reference=10., height_desired=2., exponent=.2)
    xs = [[m.real('x%d_%d' % (i, k), *r) if r[0] < r[1] and (k == 0 or name not in HALF) else r[0] * .4 + r[1] * .6 for k in range(2)] for i, r in enumerate(ranges)]
    if kind == 'scalar':
        box = [m.arr(list(x)) for x in xs]
        r = f(*box, **kw)
        for k in range(2):
            a, b = cells(m, f(*[x[k] for x in xs], **kw), None), cells(m, r, k)
            m.true('outputs', set(map(str, a)) == set(map(str, b)))
            for c in a:
                m.eq('%s of a number and of an array' % (c,), b[c], a[c])
        for x, b in zip(xs, box):
            for k in range(2):
                m.eq('input unchanged', b[k], x[k])
    elif kind == 'series':
        ix = pd.DatetimeIndex(['2021-03-01 10:00', '2021-03-02 11:00'], tz='UTC')
        box = [pd.Series(list(x), index=ix) for x in xs]
        s = f(*box, **kw)
        a = f(*[m.arr(list(x)) for x in xs], **kw) if name not in SERIES_ONLY else \
            pd.concat([f(*[pd.Series([x[k]], index=ix[k:k + 1]) for x in xs], **kw) for k in range(2)])
        parts = list(s.values()) if isinstance(s, dict) else list(s) if isinstance(s, tuple) else [s]
        if any(isinstance(p, (pd.Series, pd.DataFrame)) for p in parts):
            m.true('time index kept', all(p.index.equals(ix) for p in parts if isinstance(p, (pd.Series, pd.DataFrame))))
        for k in range(2):
            u, v = cells(m, s, k), cells(m, a, k)
            m.true('outputs', set(map(str, u)) == set(map(str, v)))
            for c in u:
                m.eq('%s of a series and of an array' % (c,), u[c], v[c])
        for x, b in zip(xs, box):
            m.true('input index unchanged', b.index.equals(ix))
            for k in range(2):
                m.eq('input unchanged', b.iloc[k], x[k])
    else:
        box = m.arr if name not in SERIES_ONLY else lambda x: pd.Series(x, index=[3, 8])
        r = f(*[box([x[0], float('nan')]) for x in xs], **kw)
        s = f(*[box([x[0], x[1]]) for x in xs], **kw)
        u, v = cells(m, r, 0), cells(m, s, 0)
        for c in u:
            m.eq('%s next to a missing element' % (c,), u[c], v[c])


def jobs(tier):
    for i, (name, path, _, _) in enumerate(TABLE):
        for kind in ('scalar', 'series', 'missing'):
            if kind == 'scalar' and name in SERIES_ONLY:
                continue
            yield Job(name + ' ' + kind, check, params=dict(row=i, kind=kind), time_limit=60)
