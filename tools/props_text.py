add('P01', 'Angle of incidence and plane-of-array beam follow the sun/panel geometry',
    "For every panel orientation and sun position the cosine of the angle of incidence is the dot product of the panel normal and the sun direction, lies in [-1, 1], the angle lies in [0, 180] degrees, and neither changes when a full turn is added to an azimuth. The beam irradiance on the panel is DNI times that cosine and zero when the sun is behind the panel.",
    I, 'all tilts, azimuths (several turns either way), zeniths and DNI values',
    'Tests evaluate a handful of orientations; the wrap-around, the clamp against |cos|>1 and the behind-the-panel case are continuous families.',
    [IR], [('aoi projection, clip and arccos', IR), ('beam clip at zero', IR)], ['aoi_projection', 'aoi', 'beam_component'])
add('P02', 'Plane-of-array irradiance components always add up',
    "For every transposition model, orientation, sun position and irradiance, global plane-of-array irradiance equals direct plus diffuse, diffuse equals sky plus ground-reflected diffuse, direct is DNI times the non-negative cosine of incidence, and ground-reflected is GHI x albedo x (1 - cos tilt)/2 (a named surface uses its tabulated albedo). Unknown model names are rejected instead of producing numbers.",
    C, 'all orientations, sun positions, irradiances, albedos, the seven sky models and every surface type',
    'Tests pin a few values per model; the additive identities must hold for every combination of model and input.',
    [IR], [('poa_components', IR), ('get_sky_diffuse dispatch', IR), ('get_ground_diffuse', IR)], ['get_total_irradiance', 'poa_components', 'get_ground_diffuse'])
add('P03', 'Sky diffuse models: horizontal limit, non-negativity, night and NaN rules',
    "For the isotropic, Klucher, Hay-Davies, Reindl, King and Perez sky models the diffuse irradiance on the plane is non-negative and its reported components sum to the total; for a horizontal plane with the sun up the isotropic, Hay-Davies, Reindl and Perez models return DHI. With zero DHI the diffuse is zero, and when the sun is below the horizon the sky diffuse never contains a NaN for finite inputs.",
    I, 'all tilts, azimuths, sun positions, DHI/DNI/extraterrestrial irradiances and airmasses; all coefficient sets of the Perez model',
    'The models switch on sky clearness bins, clamps and division guards; tests sample a few hours of one site.',
    [IR], [('Perez F1/F2 bins and clamps', IR), ('projection ratio guard', IR)], ['isotropic', 'klucher', 'haydavies', 'reindl', 'king', 'perez', 'perez_driesse'])
add('P04', 'GHI decomposition is closed, bounded and quiet at night',
    "For the Erbs, Erbs-Driesse, Orgill-Hollands and Boland decompositions, with the sun up and GHI finite, DHI + DNI x cos(zenith) = GHI, the diffuse fraction lies in [0, 1] for a clearness index in [0, 1], and DNI is never negative. When the zenith exceeds the configured maximum, or GHI or zenith would give negative DNI, DNI is zero and DHI equals GHI; the reported clearness index stays between 0 and its configured maximum.",
    I, 'all GHI, zenith angles in [0, 180], limits, and any extraterrestrial irradiance between 1300 and 1430 W/m2',
    'Piecewise-polynomial correlations and night handling are checked at a dozen points; a seam between pieces or an edge zenith is not.',
    [IR], [('erbs/erbs_driesse/orgill_hollands/boland piecewise kd', IR), ('bad-value handling', IR)], ['erbs', 'erbs_driesse', 'orgill_hollands', 'boland'])
add('P05', 'Clearness and clear-sky indices are clamped ratios',
    "The clearness index is GHI over horizontal extraterrestrial irradiance with the cosine of zenith floored at its configured minimum, clamped to [0, configured maximum]; the clear-sky index is GHI over clear-sky GHI, zero where clear-sky GHI is zero and never above its maximum, NaN or infinite GHI yields 0 or NaN but never infinity, and the zenith-independent clearness index lies in [0, its maximum].",
    I, 'all irradiances including zero, negative, NaN and infinite, all zeniths, all limits',
    'Zero denominators, NaNs and clamps combine in ways a few samples do not cover.',
    [IR], [('clearness_index', IR), ('clearsky_index', IR), ('clearness_index_zenith_independent', IR)])
add('P06', 'DISC and DNI completion respect physical limits',
    "The DISC model returns non-negative DNI, zero at night (zenith beyond its limit) or for non-positive GHI, with clearness index in [0, 1] and airmass capped. Completing a missing component of GHI/DHI/DNI closes the balance GHI = DHI + DNI x cos(zenith) exactly, and DNI computed from GHI and DHI is never negative, is dropped near sunrise/sunset when it would be, and never exceeds the tolerance times clear-sky DNI for high zeniths.",
    I, 'all irradiances, zeniths, pressures, limits; all three choices of missing component',
    'The tests pin a handful of hours; the limits interact at the horizon.',
    [IR], [('disc polynomial and limits', IR), ('dni', IR), ('complete_irradiance', IR)])
add('P07', 'Relative airmass is defined exactly for the sun above the horizon',
    "For every airmass model the relative airmass is NaN exactly when the zenith angle exceeds 90 degrees (or is NaN), otherwise it equals the model's published formula and (except for the plain secant at the horizon and the Young-Irvine polynomial) is at least about 1 and finite. Model names are case-insensitive and unknown ones are rejected. Absolute airmass is relative airmass times pressure over standard pressure.",
    C, 'all zeniths in [0, 180] and pressures; all model names',
    'Tests use a short table of zeniths; NaN masking and formulas at other angles are unconstrained.',
    ['pvlib/atmosphere.py'], [('get_relative_airmass model dispatch', 'pvlib/atmosphere.py')])
add('P08', 'Incidence angle modifiers stay in range, are 1 at normal and 0 from behind',
    "The physical (with and without an anti-reflective coating), ASHRAE, Martin-Ruiz and Schlick incidence angle modifiers equal their published formulas, are 1 at normal incidence, 0 for angles at or beyond 90 degrees, within [0, 1] for valid parameters and the same for an angle and its negative. The SAPM modifier is its polynomial clipped to [0, upper limit] and 0 for negative angles; the linearly interpolated modifier interpolates the magnitude of the angle, is not negative and normalised to 1 at normal incidence. The diffuse modifiers of Martin-Ruiz and Schlick equal their formulas including the limits at tilt 0 and 180, and the Marion diffuse modifier is the cosine-weighted mean of the modifier over the visible sky, horizon or ground.",
    I, 'all incidence angles in [-180, 180], all physically valid parameters, all tilts',
    'The singular points (0, 90, beyond) and parameter extremes are sampled only once each.',
    ['pvlib/iam.py'], [('IAM models', 'pvlib/iam.py')])
add('P09', 'Single-axis tracker orientation is feasible, consistent and self-shading free',
    "For every sun position, axis tilt/azimuth and limits, the tracker rotation stays within its limits, the reported surface tilt and azimuth are the orientation obtained by rotating about the axis, the angle of incidence is the one for that orientation, tilt lies in [0, 180] and azimuth in [0, 360). Without backtracking and inside the limits no other rotation has a smaller angle of incidence; with backtracking on level ground rows do not shade each other; all outputs are NaN when the sun is below the horizon.",
    C, 'all sun positions, axis tilts and azimuths, rotation limits (symmetric and asymmetric), ground coverage ratios and cross-axis tilts',
    'Optimality and the absence of shading are universal statements over a seven-dimensional continuous space.',
    ['pvlib/tracking.py', 'pvlib/shading.py'], [('singleaxis', 'pvlib/tracking.py'), ('calc_surface_orientation', 'pvlib/tracking.py')])
add('P10', 'Inverter AC output follows its model and never exceeds its rating',
    "For every DC voltage and power the Sandia, ADR and PVWatts inverter models return their published conversion, clipped at the AC rating; below the startup power they draw the night tare (Sandia, ADR) or zero (PVWatts, for non-positive DC). Outside its voltage window the ADR model returns NaN, and PVWatts output is zero for non-positive DC power.",
    I, 'all DC powers and voltages, all inverter parameter values in realistic ranges',
    'Clipping, tare and window logic interact for arbitrary parameters; tests use two inverters.',
    ['pvlib/inverter.py'], [('_sandia_eff/_sandia_limits', 'pvlib/inverter.py'), ('adr', 'pvlib/inverter.py'), ('pvwatts', 'pvlib/inverter.py')])
add('P11', 'Multi-MPPT inverters agree with the single-input model',
    "An inverter with several MPPT inputs gives the single-input result when it has one input, and for equal voltages gives the single-input result of the total DC power; its output respects the AC rating and the night tare, and does not depend on the order of the inputs. Mismatched numbers of voltages and powers are rejected.",
    I, 'all per-input DC powers and voltages (up to 3 inputs), all parameters',
    'Tests use fixed triples of inputs.',
    ['pvlib/inverter.py'], [('sandia_multi', 'pvlib/inverter.py'), ('pvwatts_multi', 'pvlib/inverter.py')])
add('P12', 'Steady-state cell temperature models reduce to air temperature without sun',
    "The SAPM, PVsyst, Faiman (with and without radiative loss), Ross, NOCT-SAM and generic linear module/cell temperature models equal their published formulas for all weather, so they return the air temperature when irradiance is zero, rise with irradiance and do not rise with wind speed. Prilliman smoothing returns, for every sample, the average of the preceding samples of the last 20 minutes with the published exponential weights, and leaves series with long sampling intervals unchanged.",
    I, 'all irradiances, air temperatures, wind speeds and valid coefficients',
    'The published formulas hold for every weather point and parameter set, tests take a handful.',
    ['pvlib/temperature.py'], [('sapm_module/sapm_cell, pvsyst_cell, faiman, faiman_rad, ross, noct_sam, generic_linear, prilliman', 'pvlib/temperature.py')])
add('P13', 'Temperature model parameter conversions are exact and lossless',
    "Converting Faiman, PVsyst, NOCT-SAM or SAPM parameters to the generic linear form and back recovers the parameters, and the generic model then predicts the same cell temperature as the source model for all weather (SAPM: at the two fitted wind speeds). Parameters given to one conversion or call do not leak into another.",
    I, 'all parameter values in the valid ranges, all weather',
    'Round trips are tested at one parameter set each.',
    ['pvlib/temperature.py'], [('GenericLinearModel', 'pvlib/temperature.py')])
add('P14', 'Points on the I-V curve satisfy the single diode equation',
    "For every set of diode parameters the explicit (Bishop) evaluation satisfies the single diode equation including the reverse-breakdown and recombination terms, its reported gradients are the true derivatives, and power is voltage times current. Currents and voltages returned by the Lambert-W solutions satisfy the same equation, including the ideal-resistance limits (Rs = 0, Rsh infinite), and those returned by root finding are the points where voltage, current or dP/dV take the requested value. The named points of a solved module (short and open circuit, maximum power, i_x at half of v_oc, i_xx half way between v_oc and v_mp) belong to the curve of its own parameters, for scalars, arrays and series.",
    I, 'all positive photocurrents, saturation currents, resistances, thermal voltages and diode voltages; with and without recombination and breakdown',
    'The equation must hold at every point of every curve.',
    ['pvlib/singlediode.py'], [('bishop88', 'pvlib/singlediode.py'), ('_lambertw_i_from_v/_lambertw_v_from_i', 'pvlib/singlediode.py')])
add('P15', 'Diode parameter translation reproduces the reference condition',
    "The De Soto, CEC and PVsyst translations return the reference parameters at 1000 W/m2 and the reference temperature, photocurrent is proportional to irradiance and linear in temperature, shunt resistance follows the model's irradiance law and is infinite (De Soto) or finite (PVsyst) at zero irradiance, saturation current is irradiance independent and positive, and the results equal the published formulas.",
    I, 'all irradiances, cell temperatures and module parameters',
    'Continuum of operating conditions and module parameters.',
    [PS], [('calcparams_desoto/cec/pvsyst', PS)])
add('P16', 'DC power models match their definitions',
    "The PVWatts DC model, the ADR and Huld efficiency models and the SAPM give their published formulas: nominal power at reference conditions, proportional loss with temperature, power equal to voltage times current, zero (never NaN) at zero irradiance for SAPM. Series/parallel scaling multiplies voltage, current and power consistently, and combined loss factors compose multiplicatively within [0, 100] percent.",
    I, 'all irradiances, temperatures and parameters',
    'Formula correctness over the whole operating space.',
    [PS, 'pvlib/pvarray.py'], [('pvwatts_dc, sapm, losses, scaling', PS), ('pvefficiency_adr, huld', 'pvlib/pvarray.py')])
add('P17', 'A PV system applies each per-array input to exactly its own array',
    "With several arrays, every per-array quantity of a PV system (angle of incidence, irradiance, modifiers, cell temperature, diode parameters, DC power) is computed from that array's own parameters and that array's own inputs, in array order; a single-array system returns a bare value unless told otherwise; per-array inputs of the wrong length are rejected.",
    C, 'one to three arrays with arbitrary distinct parameters and inputs',
    'Mis-routing between arrays is invisible when arrays share parameters, as in most tests.',
    [PS], [('_unwrap_single_value and _validate_per_array', PS)])
add('P18', 'Model inference selects the documented model for every parameter set',
    "For every combination of present and absent module, inverter and temperature parameters a model chain infers exactly the model whose required parameters are documented to select it, in the documented priority, and raises when no model applies. Explicitly named models are honoured case-insensitively and unknown names are rejected.",
    ['configurations'], 'all presence/absence combinations of every parameter key',
    'There are thousands of key combinations; the tests cover about twenty.',
    ['pvlib/modelchain.py'], [('infer_*_model', 'pvlib/modelchain.py')])
add('P19', 'A model chain run wires stages in order and never mixes arrays',
    "Running a model chain feeds each stage with the results of the previous ones: effective irradiance from the transposed components, spectral modifier and incidence modifier; cell temperature from the same irradiance and the supplied weather; DC power from both; AC from DC times losses. Supplied POA, effective irradiance or cell temperature replace the computed ones, inputs are not modified, and with several arrays no array's result depends on another array's parameters.",
    C, 'arbitrary weather values, 1-2 arrays, every entry point and supplied-column combination',
    'Wiring errors are masked when stages are near identity or arrays are identical.',
    ['pvlib/modelchain.py'], [('run_model*', 'pvlib/modelchain.py'), ('_run_from_effective_irrad', 'pvlib/modelchain.py')])
add('P20', 'Snow coverage is a bounded sliding process',
    "In the Marion snow model coverage is always within [0, 1], is reset to 1 exactly when the snowfall rate of a step exceeds the threshold (and, when the snow depth is given, there is enough snow on the ground), never increases otherwise, and slides by exactly the documented amount per hour when temperature and irradiance permit; too little snow on the ground clears the row. DC loss is the covered fraction of strings rounded up. Townsend monthly losses are the published formula of this and the previous month's snow, limited to [0, 1].",
    H, 'all snowfall/irradiance/temperature histories 3 to 4 steps; all tilts and thresholds; all Townsend inputs',
    'A state machine over histories; tests use two weather sequences.',
    ['pvlib/snow.py'], [('coverage_nrel', 'pvlib/snow.py'), ('loss_townsend', 'pvlib/snow.py')])
add('P21', 'Soiling accumulates until cleaned and stays within bounds',
    "In the Kimber model soiling loss grows at the documented daily rate up to its maximum, is zero from each cleaning rain event (or manual wash) through its grace period, and lies in [0, maximum]; in the HSU model the soiling ratio is 1 right after a cleaning rain and lies in (1 - 0.3437, 1], never increasing between cleaning rains.",
    H, 'all rainfall histories up to several steps and all parameters',
    'Reset/grace/accumulation interleavings form an unbounded history space.',
    ['pvlib/soiling.py'], [('kimber', 'pvlib/soiling.py'), ('hsu', 'pvlib/soiling.py')])
add('P22', 'Row-to-row shading geometry is exact and bounded',
    "The shaded fraction of a row lies in [0, 1], equals the geometric shadow length on the module plane for every sun position, slope, axis offset and ground coverage, and is zero when the rows cannot shade each other; masking angles are the geometric elevation angles; the projected solar zenith is the angle of the sun projected onto the plane normal to the axis, within (-180, 180]. Martinez shading loss is the stated combination and lies between the plain beam fraction and the beam share.",
    I, 'all row geometries and sun positions',
    'Geometric identities over 7 continuous parameters.',
    ['pvlib/shading.py'], [('shaded_fraction1d', 'pvlib/shading.py'), ('masking_angle', 'pvlib/shading.py'), ('projected_solar_zenith_angle', 'pvlib/shading.py')])
add('P23', 'Bifacial view factors are probabilities that balance',
    "Ground and row view factors used for bifacial modelling are those of the row geometry and lie in [0, 1]: a point on a row sees the sky above and the ground below the lines to the edges of the row in front, a point on the ground sees the sky between neighbouring rows; factors of parts of a row or strips of ground are the averages of the point factors (crossed strings between the row edges). The unshaded ground fraction lies in [0, 1] and is the complement of the rows' shadows on the strip.",
    I, 'all ground coverage ratios, rotations, heights, pitches, positions; up to 3 neighbouring rows',
    'Continuum of geometries; tests use a few.',
    ['pvlib/bifacial/utils.py'], [('vf_* functions', 'pvlib/bifacial/utils.py'), ('_unshaded_ground_fraction', 'pvlib/bifacial/utils.py')])
add('P24', 'Bifacial plane-of-array irradiance adds up and respects both faces',
    "Infinite-sheds and ants2d irradiance totals equal the sum of direct and diffuse parts on each face and segment; sky diffuse is the view factor to the sky times diffuse horizontal, ground diffuse is the light on the lit and shaded ground seen through the ground view factor, direct is the beam on the unshaded part; each result belongs to its own face (rear tilt 180 degrees minus tilt, azimuth turned by 180 degrees; the row turned by 180 degrees in ants2d), segment and time; the infinite-sheds bifacial total is front plus rear times bifaciality, shade and transmission factors; diffuse components are non-negative; Hay-Davies moves circumsolar light to the beam and demands extraterrestrial irradiance. The rear-irradiance mismatch loss polynomial is the published one, scaled by the fill factor ratio.",
    I, 'all orientations, sun positions, irradiances, row geometries',
    'Component wiring across two faces is only sampled.',
    ['pvlib/bifacial/infinite_sheds.py', 'pvlib/bifacial/ants2d.py', 'pvlib/bifacial/loss_models.py'], [('get_irradiance/get_irradiance_poa', 'pvlib/bifacial/infinite_sheds.py')])
add('P25', 'Clear-sky models are non-negative, dark at night and closed',
    "Haurwitz, Ineichen, simplified Solis and Bird clear-sky irradiances equal their published formulas; Haurwitz, Ineichen and simplified Solis are non-negative and zero when the sun is below the horizon (Ineichen also when airmass is missing), Bird's global, direct-horizontal and diffuse parts are zero then; Ineichen and Bird satisfy GHI = DHI + DNI x cos(zenith) and Ineichen's diffuse part is non-negative. The Linke turbidity of a time is the table's value for its UTC month, or the interpolation between the two neighbouring middles of months, wrapping over the year.",
    I, 'all zeniths, airmasses, turbidities, altitudes, aerosol, ozone, water and pressure values in range',
    'Tests compare a few days at one site.',
    ['pvlib/clearsky.py'], [('haurwitz, ineichen, simplified_solis, bird', 'pvlib/clearsky.py')])
add('P26', 'Clear-sky detection flags exactly the windows meeting all five criteria',
    "Clear-sky detection marks a time as clear exactly when it lies in a window for which all five documented criteria hold (mean, maximum, line length, normalised slope deviation, largest slope difference; all strict) and the clear sky is neither dark nor missing, for every threshold; the scaling factor is the one minimising the squared error over the clear times and later rounds judge against the scaled clear sky. Inferred limits are the published table interpolated over 1 to 30 minutes. Windows of fewer than three samples, short series and uneven times are rejected.",
    H, 'all measured and clear-sky sequences of up to 5 samples, window of 3, all thresholds',
    'The detector combines sliding statistics over arbitrary series.',
    ['pvlib/clearsky.py'], [('detect_clearsky', 'pvlib/clearsky.py')])
add('P27', 'Locations pass their own coordinates; gridded lookups hit the nearest cell',
    "For every latitude and longitude the gridded turbidity/altitude lookup index is within the data and is the cell nearest to the point; out-of-range coordinates are rejected. A location's solar position, sunrise/sunset, airmass and clear-sky results use that location's own latitude, longitude, altitude and (unless given) the pressure of that altitude; airmass models get the apparent or true zenith they are documented to need; given solar position, pressure, extraterrestrial irradiance, turbidity and airmass replace the computed ones. The solar-position methods receive latitude, longitude, altitude, pressure and temperature in their own roles. Locations built from TMY or EPW metadata take the metadata's coordinates. Unknown airmass, clear-sky and sunrise methods are rejected.",
    C, 'all latitudes in [-90, 90], longitudes in [-180, 180], all grid sizes used, arbitrary sites, pressures, temperatures; solar-position leaf functions abstract',
    'Edges of the grid and hemispheres are continuous families.',
    ['pvlib/location.py', 'pvlib/tools.py', 'pvlib/clearsky.py', 'pvlib/solarposition.py'], [('_degrees_to_index', 'pvlib/tools.py'), ('Location methods', 'pvlib/location.py'), ('get_solarposition', 'pvlib/solarposition.py')])
add('P28', 'Analytical solar geometry is consistent',
    "The analytical zenith solves the spherical law of cosines for the latitude, hour angle and declination; the analytical azimuth has the cosine that spherical trigonometry gives for the zenith, lies in [0, 2 pi], east before noon and west after, and is south at noon, at the poles and for the sun overhead. Declination, equation of time and extraterrestrial irradiance equal their published series in the day of the year (counted in UTC for time stamps; inverse square of the given earth-sun distance) and stay within physical bounds. Hour angles advance 15 degrees per hour of UTC with longitude and equation of time, in every time zone and on days with a clock change; geometric transit is at hour angle zero, sunrise and sunset symmetric about it with the sun on the horizon. The low-precision ephemeris' elevation, azimuth in [0, 360), solar time, refraction and apparent angles follow from its sidereal time and sun coordinates, zenith angles being complements.",
    I, 'all latitudes, longitudes, hour angles, declinations, days of year, equations of time, pressures, temperatures; time stamps of a list of instants and zones',
    'Tests take particular dates.',
    ['pvlib/solarposition.py', IR], [('solar_zenith_analytical/solar_azimuth_analytical', 'pvlib/solarposition.py'), ('hour_angle', 'pvlib/solarposition.py'), ('ephemeris', 'pvlib/solarposition.py'), ('get_extra_radiation', IR)])
add('P29', 'SPA equals the published algorithm, step by step, for every time of an array',
    "Every step of the NREL solar position algorithm equals its published formula and every angle is reduced to its documented range (hour angle, right ascension, longitude, sidereal time and azimuth in [0, 360), declination and elevation within +-90); zenith and elevation are complementary, apparent elevation is the elevation plus a refraction that vanishes below the horizon; the periodic-term tables, delta T polynomials and calendar-to-Julian-day conversion are the published ones. Vectorised and multi-threaded (numba) evaluation give each time the composition of the steps for its own inputs, for any number and order of threads. Transit interpolates the sun coordinates of three days as published and sunrise and sunset are missing when the sun does not cross the horizon; dates that are not midnight UTC are refused.",
    I, 'all sites, pressures, temperatures and times (as abstract arguments of each step), all thread orders up to 3 threads',
    'Tests validate a few dates to high precision but not the wrap-arounds, the threads or most eras.',
    ['pvlib/spa.py'], [('SPA step functions, solar_position, transit_sunrise_sunset', 'pvlib/spa.py')])
add('P30', 'Spectral modifiers follow their formulas, limits and missing-data rules',
    "First Solar, SAPM, Caballero, PVSPEC, JRC and Polo spectral modifiers equal their published formulas for every module type and for arbitrary coefficients, with inputs limited as documented (First Solar: water clamped below and NaN above its limits, airmass clamped; Polo: incidence angle limited to 90 degrees); SAPM never returns a negative or NaN modifier; exactly one of module type and coefficients must be given. Quantum efficiency and spectral response conversions are inverse and normalise to a largest value of one; the spectral mismatch is the ratio of weighted to total irradiance under the sun and the reference, with no response outside the measured range; the average photon energy is the spectrum's energy per photon and lies between the photon energies of its ends.",
    C, 'all airmasses, precipitable water, clearness, AOD; all module types; spectra of 3 to 4 wavelengths',
    'Clamps and argument rules are only sampled.',
    ['pvlib/spectrum/mismatch.py', 'pvlib/spectrum/response.py', 'pvlib/spectrum/irradiance.py'],
    [('spectral_factor_*', 'pvlib/spectrum/mismatch.py'), ('sr_to_qe/qe_to_sr', 'pvlib/spectrum/response.py'), ('average_photon_energy', 'pvlib/spectrum/irradiance.py')])
add('P31', 'Atmospheric conversions and surface albedo follow their formulas and invert',
    "Pressure-altitude, precipitable water, broadband aerosol optical depth, Linke turbidity, Angstrom and wind-profile conversions equal their published formulas for scalars, arrays and series; relative humidity and dew point are inverse for any coefficients (the dew point never exceeds the air temperature), Angstrom exponent and optical depth are inverse, pressure falls strictly with altitude and back, precipitable water is at least 0.1 cm. Wind-profile speed is NaN for negative speeds or heights. Inland-water albedo follows its formula with the sun below the horizon taken as at the horizon, lies in [0, 1] and never exceeds the colour coefficient. Exactly one of surface type and explicit coefficients must be given.",
    I, 'all altitudes, pressures, temperatures, humidities, wavelengths, wind speeds, surfaces',
    'Inverse laws are universal statements.',
    ['pvlib/atmosphere.py', 'pvlib/albedo.py'], [('alt2pres/pres2alt, tdew_from_rh/rh_from_tdew, angstrom', 'pvlib/atmosphere.py'), ('inland_water_dvoracek', 'pvlib/albedo.py')])
add('P32', 'Results do not depend on the container of the inputs',
    "Elementwise model functions (transposition, decomposition, incidence-angle, temperature, airmass, clear-sky, spectral, DC, inverter, transformer, orientation and shading geometry) give, element by element, the same values under the same names for numbers, arrays and time series; a missing value in one element never changes the result at another; the time index of a series is kept; the caller's arrays and series are not modified. Functions documented for series only give each element what a series of that element alone gives.",
    C, 'arbitrary values in arrays and series of length 2 for more than 90 model functions',
    'Cross-element contamination or in-place modification appears only for particular value patterns.',
    [IR, 'pvlib/iam.py', 'pvlib/inverter.py', 'pvlib/temperature.py', 'pvlib/atmosphere.py', 'pvlib/spectrum/mismatch.py', 'pvlib/pvsystem.py', 'pvlib/shading.py'], [('elementwise numpy code', IR)])
add('P33', 'Transformer losses satisfy the loss balance',
    "The simple-efficiency transformer's output satisfies output = input - no-load loss - load loss at that output for every input, never exceeds the input, equals minus the no-load loss at zero input and increases with input.",
    I, 'all input powers, ratings and loss fractions',
    'The quadratic must be solved on the right branch for all loads.',
    ['pvlib/transformer.py'], [('simple_efficiency', 'pvlib/transformer.py')])
add('P34', 'I-V curve fitting helpers preserve the data they summarise',
    "Numerical first derivatives are exact for quartics on uneven grids and missing at the two points at each end; the quadratic spline passes through its data with ordered knots, continuous value and slope, and falls where the data fall; the co-content is the integral of that spline; the measured maximum power point is the sample of largest power; the simple Sandia conversion returns the single-diode parameters that generated its coefficients, never uses a negative estimate of the saturation current and fails if none is left. The De Soto fit solves exactly the five published residual equations from the documented starting point with the caller's specifications, returns the solver's solution under the documented names and fails when the solver does; the Batzelis estimate follows its closed formulas.",
    I, 'all polynomials; all 3-point curves on several grids; all physical single-diode parameters',
    'Tests use one curve and one module; these are laws of every curve.',
    ['pvlib/ivtools/utils.py', 'pvlib/ivtools/sde.py', 'pvlib/ivtools/sdm/desoto.py'], [('_numdiff, _schumaker_qspline', 'pvlib/ivtools/utils.py'), ('_sandia_simple_params, _cocontent', 'pvlib/ivtools/sde.py'), ('fit_desoto, _system_of_equations_desoto, fit_desoto_batzelis', 'pvlib/ivtools/sdm/desoto.py')])
add('P35', 'Search, selection and numeric utilities are faithful',
    "The golden-section search returns, for each of several problems solved at once, a point inside its bracket within 2.12 tolerances of the maximum of a unimodal function (at the bracket's end if the peak lies outside), with the function's value there; a problem whose function is missing gives NaN and leaves the others unaffected; crossed brackets are refused and the caller's parameters are not modified. Trigonometric helpers in degrees equal their radian counterparts and inverses return to the argument. The centred difference is exact for quadratics with error h^2 times the cubic coefficient; keyword selection returns exactly the keys that are present; normalisation divides by the largest absolute value.",
    I, 'all tents of any slopes, offset and peak; all angles; all key subsets',
    'Universal laws; the tests search one function.',
    ['pvlib/tools.py'], [('_golden_sect_DataFrame, _build_kwargs, normalize_max2one', 'pvlib/tools.py')])
add('P36', 'Data readers map file records to the standard variables without loss',
    "Readers for TMY, EPW, SURFRAD, BSRN, SRML, PSM and similar formats return each record at its own timestamp with its own values under the documented names.",
    ['inputs'], 'all well-formed files',
    'Tests read one sample file per format.',
    ['pvlib/iotools/tmy.py', 'pvlib/iotools/epw.py'], [('parsers', 'pvlib/iotools/tmy.py')])
add('P37', 'Wavelet smoothing and fleet scaling preserve the mean signal',
    "The wavelet variability model returns a smoothed clear-sky index whose wavelet modes are scaled by variability-reduction factors of at least one that never decrease with distance between sites or cloud speed reduction.",
    I, 'all plant layouts and cloud speeds',
    'Continuous geometry.',
    ['pvlib/scaling.py'], [('wvm', 'pvlib/scaling.py')])
