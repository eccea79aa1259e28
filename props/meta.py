"""What each property says (source of properties.jsonl and MANIFEST.json)."""
SUB = 'emc2/simulator/subcolumn.py'
RAD = 'emc2/simulator/radar_moments.py'
LID = 'emc2/simulator/lidar_moments.py'
ATT = 'emc2/simulator/attenuation.py'
PSD = 'emc2/simulator/psd.py'
CLS = 'emc2/simulator/classification.py'
AGG = 'emc2/statistics_LLNL/statistical_aggregation.py'
INS = 'emc2/core/instrument.py'
PLT = 'emc2/plotting/subcol_display.py'
MAIN = 'emc2/simulator/main.py'
MOD = 'emc2/core/model.py'
MIE = 'emc2/scattering/mie_scattering.py'
META = {}


def P(pid, title, statement, text, why, files, mech, over=('inputs', 'configurations'), observe=(), state=()):
    assert len(title) <= 80, (pid, len(title))
    META[pid] = dict(
        id=pid, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=d, where=w) for n, d, w in state],
                     observe_at=list(observe), hook_needed=None))


P('C01', 'Convective cloud fills the nearest whole number of subcolumns',
  'For every time and level, the number of convective subcolumns of a class is the convective cloud fraction times the number '
  'of subcolumns rounded to the nearest integer, and they are filled from the first subcolumn on. In the radiation approach '
  'there are none where the convective mixing ratio does not exceed the truncation threshold. The result always has one value '
  'per subcolumn, time and level.',
  'every fraction in [0,1], mixing ratio, class, number of subcolumns and cloud-fraction logic',
  'the tests compare one synthetic column with stored numbers for one number of subcolumns', [SUB],
  [('convective fraction generator', SUB + ':set_convective_sub_col_frac')],
  observe=['the convective fraction field of the dataset'])

P('C02', 'Stratiform cloud gets its share of subcolumns, outside convection',
  'At every level below the top, liquid and ice cloud each occupy the nearest whole number of subcolumns to their fraction, '
  'limited by the subcolumns without convection. They never share a subcolumn with convective cloud, unless both phases are '
  'overcast. The phase with the smaller cover lies entirely inside the other, so that mixed-phase overlap is maximal.',
  'every pair of cloud fractions, every convective mask, every outcome of the random permutations, serial or chunked',
  'the outcome is random and depends on the masks of two levels; tests check statistics of one seeded column',
  [SUB], [('stratiform allocation', SUB + ':set_stratiform_sub_col_frac'), ('per-level allocation',
                                                                            SUB + ':_allocate_strat_sub_col')],
  over=('inputs', 'configurations', 'schedules'))

P('C03', 'Stratiform cloud follows maximum-random overlap between levels',
  'Going down the column, stratiform cloud of either phase first continues below the non-convective subcolumns that were '
  'mixed-phase at the level above, then below those with any cloud, and only the remainder is placed at random elsewhere. '
  'The number of subcolumns that continue is therefore always the largest possible.',
  'every pair of cloud fractions at adjacent levels, every convective mask, every random permutation',
  'the overlap depends on the relative sizes of four subcolumn sets and on random draws; tests sample a few columns',
  [SUB], [('per-level allocation', SUB + ':_allocate_strat_sub_col')], over=('inputs', 'configurations', 'schedules'))

P('C04', 'Precipitation gets exactly its share of subcolumns',
  'At every level below the top, each precipitation class occupies the nearest whole number of subcolumns to its fraction, '
  'and none where (in the radiation approach) its mixing ratio does not exceed the threshold. The classes overlap each other '
  'as much as their covers allow.',
  'every set of two or three precipitation fractions, every cloud mask, every random permutation, serial or chunked',
  'tests use one column and one order of classes; which branch places the precipitation depends on the masks drawn',
  [SUB], [('precipitation allocation', SUB + ':set_precip_sub_col_frac'),
          ('per-level allocation', SUB + ':_allocate_precip_sub_col')], over=('inputs', 'configurations', 'schedules'))

P('C05', 'Precipitation falls below precipitation and cloud first',
  'Going down the column, subcolumns with precipitation at the level above keep precipitating before any other subcolumn does; '
  'then the subcolumns with cloud at the same level are used; only the remainder is placed in clear subcolumns.',
  'every set of precipitation fractions at adjacent levels, every cloud mask, every random permutation',
  'the placement priority only shows when the covers compete; tests sample a few columns',
  [SUB], [('per-level allocation', SUB + ':_allocate_precip_sub_col')], over=('inputs', 'configurations', 'schedules'))

P('C06', 'Hydrometeor water and number are conserved across subcolumns',
  'Without sub-grid variability, every occupied subcolumn holds the in-cloud mixing ratio (grid mean over cloud fraction) and '
  'number concentration of its class, and every empty subcolumn holds nothing. The cloud fraction used is the one of the '
  'selected approach (radiation or microphysics) and of the stratiform or convective type.',
  'every occupancy mask, fraction, mixing ratio and number, every class and approach',
  'tests check one class in one approach with constant fields', [SUB], [('water distribution', SUB + ':set_q_n')])

P('C07', 'Sub-grid cloud water variability conserves the in-cloud mean',
  'When cloud liquid varies between subcolumns, values are drawn only in occupied subcolumns, are never negative, and for every '
  'time and level sum to the in-cloud mixing ratio times the number of occupied subcolumns. This holds whatever is drawn, for '
  'a cell without cloud or with one cloudy subcolumn, and in whatever chunks the time steps are processed. The draws are '
  'from the gamma distribution about the in-cloud mean with the inverse relative variance given (by the reciprocal of the '
  'relative variance field where the model has one, by the caller, or 1), and are kept as long as they fit in the cell.',
  'every occupancy mask, mixing ratio, relative variance, gamma draw and permutation; serial, parallel and chunked',
  'the draws are random, and the closure by the last draws is only exercised by unlucky draws',
  [SUB], [('water distribution', SUB + ':set_q_n'), ('draws', SUB + ':_distribute_cl_qs')],
  over=('inputs', 'configurations', 'schedules'))

P('C08', 'With one subcolumn the grid-cell state passes through unchanged',
  'With a single subcolumn the generator is off: the subcolumn is occupied by a class exactly where its mixing ratio exceeds '
  'the truncation threshold, and then holds the in-cloud mixing ratio and number of the grid cell, at all levels including '
  'the top one.',
  'every mixing ratio, fraction and number of all classes; stratiform and convective, both approaches',
  'one test covers one model with one approach', [SUB],
  [('fraction generators', SUB + ':set_stratiform_sub_col_frac'), ('water distribution', SUB + ':set_q_n')])

P('C09', 'Total reflectivity adds linearly and is masked at the noise floor',
  'Stratiform and convective reflectivities combine as the sum of their linear values, missing where there is neither. The '
  'attenuated reflectivity is the total times the transmittances of stratiform and convective hydrometeors and of gases, a '
  'missing transmittance attenuating nothing, and never exceeds the total. The detection mask flags exactly the reflectivities '
  'that do not exceed the minimum detectable one.',
  'every pattern of missing values, every reflectivity, transmittance and noise floor',
  'tests only look at one attenuated column; patterns of missing values are not exercised',
  [RAD], [('totals', RAD + ':calc_total_reflectivity')])

P('C10', 'Radar attenuation is the two-way loss over the layers passed',
  'At every level the hydrometeor and gaseous transmittances are the two-way loss accumulated over the layers between the '
  'instrument (at the surface or at the top) and that level, each layer weighted by its thickness, so they are 1 next to the '
  'instrument, lie in [0,1] and never increase away from it.',
  'every height grid, every non-negative extinction profile, both viewing directions, empirical or physical extinction units',
  'tests use one profile from the surface', [RAD], [('accumulation', RAD + ':accumulate_attenuation')])

P('C11', 'Empirical reflectivity follows the published relations class by class',
  'The empirical reflectivity of a class depends only on its own water content (from mixing ratio and air density), the '
  'temperature and, for ice, the radar band; it is missing where the class is absent. The total is the linear sum over the '
  'requested classes and is attenuated by the liquid water of all of them.',
  'every occupancy, mixing ratio, temperature, pressure and height; S, Ka and W band; any subset and order of classes',
  'tests compare one column at one frequency with stored values',
  [RAD], [('empirical relations', RAD + ':calc_radar_empirical'), ('dispatch and units', RAD + ':calc_radar_moments')])

P('C12', 'Bulk radar reflectivity is geometric area times tabulated efficiency',
  'In the radiation approach the reflectivity of a class is the projected area of its particles (from water content and '
  'effective radius) times the backscatter efficiency interpolated in the bulk table, missing where the class is absent; '
  'classes add linearly. The same area times the extinction efficiency of all classes attenuates the signal.',
  'every occupancy, mixing ratio, pressure, height and table; effective radii inside and beyond the table; both model '
  'families, fluffy or solid ice, either ice table, stratiform or convective',
  'tests compare one column of one model with stored values', [RAD],
  [('bulk radar', RAD + ':calc_radar_bulk'), ('dispatch and units', RAD + ':calc_radar_moments')])

P('C13', 'Bulk lidar scattering is geometric area times tabulated efficiency',
  'In the radiation approach the backscatter and extinction of a class are the projected area of its particles (from water '
  'content and effective radius) times the efficiency interpolated in the bulk table, zero where the class is absent, and '
  'never negative; classes add up to the totals.',
  'every occupancy, mixing ratio, pressure, height, temperature and table; effective radii inside and beyond the table; both '
  'model families, fluffy or solid ice, either ice table, stratiform or convective',
  'tests compare one column of one model with stored values', [LID],
  [('bulk lidar', LID + ':calc_lidar_bulk'), ('dispatch and units', LID + ':calc_lidar_moments')])

P('C14', 'Gaseous radar absorption follows the published line shapes',
  'The absorption of the radar signal by oxygen and by water vapour at a level depends only on the pressure, temperature and '
  'vapour of that level and on the radar frequency, as in the published (Ulaby) relations in GHz and hPa with their three '
  'pressure ranges of the oxygen line width, whatever units the model uses. Their sum is the gaseous attenuation.',
  'every pressure, temperature and humidity; any unit of the model fields; S, Ka and W band',
  'the test asserts only that the absorption is small', [ATT],
  [('gas absorption', ATT + ':calc_radar_atm_attenuation')])

P('C15', 'Molecular scattering follows the air density and attenuates along the beam',
  'Molecular backscatter and extinction are the Rayleigh cross sections at the lidar wavelength times the number density of '
  'the air, with a constant ratio between them. The molecular optical depth at a level is the extinction integrated over the '
  'layers between the lidar (at the surface or at the top) and that level, and the transmittance is its two-way loss. '
  'The results do not depend on the units of the model fields.',
  'every profile of pressure, temperature and height; any unit; both viewing directions',
  'the test asserts orders of magnitude for one profile', [ATT],
  [('molecular scattering', ATT + ':calc_theory_beta_m')])

P('C16', 'Lidar optical depth accumulates along the beam and attenuates the total signal',
  'The optical depth of a class at a level is the extinction integrated over the layers between the lidar and that level: zero '
  'next to the instrument and never decreasing away from it. The total backscatter, extinction and optical depth are the sums of '
  'the stratiform and convective ones, missing values counting nothing. The attenuated backscatter is the sum of particle and '
  'molecular backscatter reduced by the two-way molecular and particle transmittance, with the multiple scattering factor.',
  'every height grid and extinction profile, every pattern of missing values, both viewing directions',
  'tests compare one column with thresholds', [LID],
  [('optical depth', LID + ':accumulate_OD'), ('totals', LID + ':calc_total_alpha_beta')])

P('C17', 'Depolarization is backscatter weighted; the extinction mask marks the beam loss',
  'The linear depolarization ratio of a cell (stratiform, convective and total) is the mean of the ratios of the requested '
  'classes weighted by their backscatter, so it lies between them, and missing where nothing scatters. The extinction mask is 2 '
  'exactly where the optical depth exceeds the threshold, 1 in the last layer before that along the beam, 0 elsewhere.',
  'every backscatter, depolarization ratio and optical depth profile; any subset of classes; both viewing directions',
  'the test looks at the range of one column', [LID],
  [('depolarization and extinction mask', LID + ':calc_LDR_and_ext')])

P('C18', 'Empirical lidar scattering follows the published relations class by class',
  'The empirical extinction of liquid is set by its water content and effective radius and that of ice by its water content and '
  'temperature; it is zero where the class is absent. Backscatter is extinction over the lidar ratio of the class. The totals '
  'are the sums over the requested classes, and the attenuated backscatter uses them.',
  'every occupancy, mixing ratio, radius, temperature, pressure and height; any subset of classes; any unit',
  'no test uses the empirical lidar approach', [LID],
  [('empirical relations', LID + ':calc_lidar_empirical'), ('dispatch and units', LID + ':calc_lidar_moments')])

P('C19', 'The minimum detectable reflectivity grows with the square of the range',
  'The minimum detectable reflectivity equals the sensitivity at the reference range plus 20 dB per decade of range above the '
  'instrument, whatever unit the heights have and whatever the reference range is.',
  'every height, sensitivity and reference range', 'no test covers it', [ATT],
  [('sensitivity', ATT + ':calc_radar_Ze_min')])

P('C20', 'The size distribution carries the water and number of the subcolumn',
  'Wherever a subcolumn holds water of a class, the gamma distribution assigned to it integrates to the number concentration and '
  'to the mixing ratio of that subcolumn, with a positive slope. Ice, rain and convective classes are exponential; stratiform '
  'cloud droplets use the fixed shape for ModelE and DHARMA, and otherwise a shape that follows the droplet number within the '
  'bounds requested. Without water there is no distribution.',
  'every mixing ratio, number concentration and occupancy; every class; every bound of the shape parameter',
  'tests compare one column with stored values', [PSD], [('size distribution', PSD + ':calc_mu_lambda')])

P('C21', 'Microphysics reflectivity integrates cross sections over the distribution',
  'In the microphysics approach the reflectivity of a class is the integral of the backscatter cross sections over its size '
  'distribution, scaled by wavelength and dielectric factor, and missing where the class is absent. The total is the sum over '
  'the requested classes. The two-way attenuation uses the extinction of all requested classes in the layers passed.',
  'every occupancy, mixing ratio, number concentration, cross section, height and order of classes; serial or chunked',
  'tests compare one column with stored thresholds', [RAD, PSD],
  [('microphysics radar', RAD + ':calc_radar_micro'), ('liquid cloud', RAD + ':_calculate_observables_liquid'),
   ('other classes', RAD + ':_calculate_other_observables')], over=('inputs', 'configurations', 'schedules'))

P('C22', 'Doppler moments are backscatter weighted over sizes and classes',
  'The mean Doppler velocity of a class is its fall speed (downward negative, with the air density correction of that class) '
  'averaged over the size distribution with the backscatter as weight, and its spectral width is the weighted standard deviation '
  'about that mean. The totals are the same moments over all requested classes together, about the total mean.',
  'every occupancy, mixing ratio, number concentration, cross section, air density and particle density; any set of classes',
  'tests compare one column with stored thresholds; terms mix only where classes share a subcolumn', [RAD],
  [('microphysics radar', RAD + ':calc_radar_micro'), ('total width', RAD + ':_calc_sigma_d_tot'),
   ('total width of cloud liquid', RAD + ':_calc_sigma_d_tot_cl'), ('NSSL fall speeds', PSD + ':calc_velocity_nssl')],
  over=('inputs', 'configurations', 'schedules'))

P('C23', 'Microphysics lidar scattering integrates cross sections over the distribution',
  'In the microphysics approach the lidar backscatter and extinction of a class are the integrals of its particle cross sections '
  'over its size distribution, and zero where the class is absent. Totals are the sums over the requested classes and the '
  'optical depth accumulates the extinction of the layers passed.',
  'every occupancy, mixing ratio, number concentration, cross section and height; any set of classes; serial or chunked',
  'tests compare one column with stored thresholds', [LID],
  [('microphysics lidar', LID + ':calc_lidar_micro'), ('integrals', LID + ':_calc_strat_lidar_properties')],
  over=('inputs', 'configurations', 'schedules'))

P('C24', 'Results do not depend on the order of the hydrometeor classes',
  'For every approach (empirical, bulk, microphysics) and both radar and lidar, requesting the same hydrometeor classes in '
  'another order gives the same value of every simulated field.',
  'every occupancy, mixing ratio, number and radius; every approach and instrument type',
  'no test changes the order; terms overwritten instead of added show only in mixed cells', [RAD, LID],
  [('radar moments', RAD + ':calc_radar_moments'), ('lidar moments', LID + ':calc_lidar_moments')],
  over=('inputs', 'configurations'))

P('C25', 'Earlier calculations leave no trace in later ones',
  'Calculating moments with a model gives the same simulated fields whether the model is fresh or was used before, for the '
  'same calculation, another approach, another instrument, convective cloud or another set of hydrometeor classes.',
  'every sequence of two calculations of the configurations, every occupancy, mixing ratio, number and radius',
  'tests use a fresh model for each calculation', [RAD, LID],
  [('radar moments', RAD + ':calc_radar_moments'), ('lidar moments', LID + ':calc_lidar_moments')],
  over=('inputs', 'configurations', 'histories'))

P('C26', 'Serial, parallel and chunked processing give the same moments',
  'The moments of the microphysics approach are the same whether the time steps are processed serially, in parallel at once, or '
  'in parallel chunks of any size.',
  'every occupancy, mixing ratio and number; chunks of one, two, three steps and unlimited for three time steps',
  'tests use one setting; chunk boundaries matter only when the chunk does not divide the number of steps', [RAD, LID],
  [('radar chunks', RAD + ':calc_radar_micro'), ('lidar chunks', LID + ':calc_lidar_micro')],
  over=('inputs', 'configurations', 'schedules'))

P('C27', 'Results do not depend on the units of the model fields',
  'Giving pressure, temperature and height in other units, with the units attribute saying so, changes no result of the radar '
  'and lidar calculations.',
  'every approach and instrument type; pressure, temperature and height arbitrary in part of the configurations',
  'tests use each model in its own units', [RAD, LID, ATT],
  [('radar moments', RAD + ':calc_radar_moments'), ('lidar moments', LID + ':calc_lidar_moments'),
   ('attenuation', ATT)])

P('C28', 'Every subcolumn and time step is calculated on its own',
  'The moments of one subcolumn at one time step depend only on the state of that subcolumn and time: calculating it alone gives '
  'the same values as calculating it with others.',
  'every occupancy, mixing ratio, number and radius of four columns, compared with each one alone',
  'cells are skipped or shared depending on the other subcolumns, which tests hold fixed', [RAD, LID],
  [('radar moments', RAD + ':calc_radar_moments'), ('lidar moments', LID + ':calc_lidar_moments')])

P('C29', "The model's own fields are left unchanged",
  'Calculating moments adds fields to the model and leaves the values, shapes and units of the fields it came with unchanged.',
  'every occupancy and value of the fields used, every approach and instrument type',
  'tests do not look at the inputs after a calculation', [RAD, LID],
  [('radar moments', RAD + ':calc_radar_moments'), ('lidar moments', LID + ':calc_lidar_moments')])

P('C30', 'Radar mask marks cloud, precipitation or both as detected',
  'In the radar-sounding phase mask a cell is 1 where its subcolumn has cloud liquid and the attenuated reflectivity is missing '
  'or below the minimum detectable reflectivity of its time and height, 3 where there is no cloud liquid and the reflectivity is '
  'at or above it, 2 where both hold, and 0 (missing, if requested) otherwise and outside the requested range of heights. '
  'Separate masks use the stratiform and convective cloud and reflectivity; the mask of all hydrometeors uses the total '
  'reflectivity and cloud of either kind.',
  'every reflectivity, detection limit, cloud pattern, height and height range',
  'tests count classes in a few stored columns', [CLS], [('radar mask', CLS + ':radar_classify_phase')],
  observe=['the phase mask fields of the dataset'])

P('C31', 'Lidar mask gives the last class whose backscatter threshold is reached',
  'In the fixed-threshold lidar mask a cell with backscatter gets the class of the last entry of the threshold list whose '
  'threshold at the depolarization ratio of the cell, interpolated linearly in the logarithm, is reached, and 0 (missing, if '
  'requested) if none is or there is no backscatter. Unless switched off, cells where the optical depth exceeds the extinction '
  'limit of the instrument are 0. Masks of stratiform, convective and all hydrometeors use their own fields, the thresholds are '
  'those given or else those of the instrument, and the legend names the class of each number.',
  'every backscatter, depolarization ratio, optical depth and threshold curve',
  'tests use the default thresholds on stored columns', [CLS], [('lidar mask', CLS + ':lidar_classify_phase')],
  observe=['the phase mask fields of the dataset'])

P('C32', 'COSP emulation classifies by attenuated backscatter as published',
  'The attenuated total and cross-polarized backscatter of the COSP emulation follow Cesana and Chepfer (2013): the liquid and '
  'ice particle backscatter of the included classes, the cross-polarized backscatter from the polynomials of each phase, and '
  'molecular scattering with a depolarization of 0.0284, attenuated by the particle and molecular optical depth; all '
  'hydrometeors are the sum of the kinds of cloud. The scattering ratio is the total over the molecular value. A cell is cloud '
  'where it exceeds the cloud threshold; liquid (1) or ice (2) by the discrimination polynomial, always liquid above 273.15 K '
  'and ice below 233.15 K; undefined (3) behind, along the beam, a layer over the upper threshold.',
  'every backscatter, optical depth, molecular scattering, transmittance and temperature, in both beam directions',
  'tests compare one stored column', [CLS], [('COSP emulation', CLS + ':lidar_emulate_cosp_phase')],
  observe=['the COSP fields of the dataset'])

P('C33', 'Phase ratios are shares of the hydrometeor subcolumns or mass',
  'The frequency phase ratio of each time and level is the number of subcolumns in the requested classes over the number in any '
  'class (or the classes given), between 0 and 1 and missing exactly where there is none. The mass phase ratio is the mass of '
  'liquid over the mass of all requested classes: per subcolumn and summed over the subcolumns where the mask is set, or from '
  'the model fields; missing exactly where there is no mass.',
  'every mask and mixing ratio', 'tests do not cover the ratios', [CLS],
  [('phase ratios', CLS + ':calculate_phase_ratio')], observe=['the ratio fields of the dataset'])

P('C34', 'Regridding gives the overlap-weighted mean of the model layers',
  'Regridded to other levels, a profile has in each new level above the ground the mean of the model layers overlapping it, '
  'weighted by the overlap in height (for values in dB the mean of the linear values, without the missing ones); new levels '
  'below the lowest layer have the ground flag and levels without any layer or signal the missing flag, for any two grids '
  'whether or not one reaches beyond the other.',
  'every pair of vertical grids and every profile', 'tests regrid one model to one grid and check ranges', [AGG],
  [('regridding', AGG + ':COSP_CHANGE_VERTICAL_GRID')])

P('C35', 'Scattering ratios are total over molecular signal of the same layer',
  'The aggregation takes the attenuated backscatter, reflectivity, molecular backscatter (times its two-way transmittance) and '
  'height in km of each subcolumn, time, level and column unchanged, with layer bottoms midway between the levels (the lowest layer reaching as far below its level as above). The '
  'scattering ratio of a new level is the layer mean of the total over that of the molecular signal, the reflectivity the '
  'layer mean, and both are missing exactly where a layer is missing, below the ground or above the model top.',
  'every signal, height and pattern of missing values', 'tests regrid one model to one grid and check ranges', [AGG],
  [('signals', AGG + ':get_radar_lidar_signals'), ('ratio', AGG + ':calculate_SR'),
   ('reflectivity', AGG + ':get_regridded_ze_att_tot')])

P('C36', 'Cloud fraction and frequency diagrams are shares of the subcolumns',
  'The lidar cloud fraction is the number of subcolumns with a scattering ratio above 5 over the number above 0.01, between 0 '
  'and 1, and missing exactly where the latter is zero. The frequency by altitude of a column is, for each bin, the number of '
  'subcolumns and times with a value in the half-open bin over the number of all subcolumns and times.',
  'every scattering ratio or reflectivity, with missing values', 'tests check ranges for one model', [AGG],
  [('cloud fraction', AGG + ':calculate_lidar_CF'), ('frequency by altitude', AGG + ':get_cfaddBZ'),
   ('frequency by altitude', AGG + ':get_cfad_SR')])

P('C37', 'Stacking regional output to columns and back loses nothing',
  'Regional output is stacked to one column for every place and time, with the columns and then the height as the first '
  'dimensions, whatever the order of the dimensions, with or without longitude or time. After unstacking, every value of '
  'every field (original, calculated for the columns, or per subcolumn) is at the place, time and level it came from, with '
  'its coordinates and attributes. Output of a single place is only squeezed.',
  'every order and size of the dimensions and every value', 'tests use single columns', [MOD],
  [('stacking', MOD + ':Model.check_and_stack_time_lat_lon'), ('unstacking', MOD + ':Model.unstack_time_lat_lon'),
   ('order of dimensions', MOD + ':Model.permute_dims_for_processing')], observe=['fields and dimensions of the dataset'])

P('C38', 'Cropping, renaming and cleaning change nothing but what they are for',
  'The time range keeps exactly the times from its start to before its end, or everything if there are none. Finalizing sets '
  'exact zeros to missing in subcolumn fields (and those requested), and changes nothing else. Removing the subcolumn fields of '
  'one kind of cloud removes these and only these. Appended strings are removed from names, and several sub-domains become '
  'one dimension in order, value by value. A bounding box keeps every row and column from the one nearest to its lower corner to '
  'the one nearest to its upper corner. Values limited to a grid are the nearest value in its range. The air density is '
  'that of the ideal gas law.',
  'every value, time axis, time range, pattern of zeros and set of sub-domains',
  'tests do not reach most of these functions', [MOD],
  [('time range', MOD + ':Model._crop_time_range'), ('bounding box', MOD + ':Model._crop_bounding_box'), ('cleaning', MOD + ':Model.finalize_subcol_fields'),
   ('removing', MOD + ':Model.remove_subcol_fields'), ('renaming', MOD + ':Model.remove_appended_str'),
   ('range', MOD + ':Model.set_array_to_valid_range'), ('air density', MOD + ':Model._calc_air_density')],
  observe=['fields of the dataset'])

P('C39', 'Model output is read in the units and order the simulator expects',
  'Reading output of E3SM, CESM, WRF, ModelE and DHARMA gives columns ordered by time and then height from the ground up, '
  'pressure in hPa (hybrid levels or perturbation plus base), temperature, humidity and height of the same cell, air density '
  'from the ideal gas law and number concentrations in cm-3 (mixing ratio of number times air density). Zero effective radii '
  'are missing and precipitation diameters in m become radii in um. WRF is overcast where the mixing ratio exceeds 1e-14 unless '
  'its own fraction is used; NSSL particle densities are mass over volume or 900. P3 rime fraction, rime density, in-cloud '
  'number and mass per particle follow their definitions; the P3 shape is 0.076 lambda^0.8 - 2 (lambda in cm-1) within 0 to 6 '
  'and normalised; properties outside the P3 table are set to its edge. Each class finds its own water, number, fractions and radii.',
  'every value of the fields and every time, level and column', 'tests have no output files of most models', [MOD],
  [('E3SM and CESM', MOD + ':E3SMv1.__init__'), ('WRF', MOD + ':WRF.__init__'), ('ModelE', MOD + ':ModelE.__init__'),
   ('DHARMA', MOD + ':DHARMA.__init__'), ('P3', MOD + ':E3SMv3.calc_mu_n0_from_lambda')],
  observe=['fields of the dataset'])

P('C40', 'One call simulates what its steps do, with the options reaching every step',
  'Simulating an instrument in one call gives, field by field, what its steps give one after the other: stratiform and, for '
  'models with convection, convective moments, then totals, detection or extinction and, if requested, classification and '
  'cleaning. The options given (beam direction, classes, approach, table for ice, chunks, multiple scattering, extinction '
  'depth, reference range, height range of the mask, missing values) or else the properties of the instrument apply to every '
  'step that has them.',
  'every subcolumn field and the combinations of options of the configurations',
  'tests run the call with a few options and compare ranges', [MAIN], [('the call', MAIN + ':make_simulated_data')],
  observe=['all fields of the dataset'])

P('C41', 'The generated subcolumns hold all water and particles of the model',
  'After generating the subcolumns of a model in one call, each kind of cloud of each class has in every subcolumn field one '
  'value per subcolumn, time and level. The water of its subcolumns adds up to the in-cloud mixing ratio times their number '
  '(evenly, except stratiform liquid in the microphysics approach), with the in-cloud number of particles in each, and nothing '
  'elsewhere. Below the top level, cover is the nearest whole number of subcolumns, for stratiform cloud limited to those '
  'without convection.',
  'every cover, mixing ratio and number of the classes, every outcome of the random choices',
  'tests compare ranges of a seeded run', [MAIN, SUB],
  [('the call', MAIN + ':make_simulated_data'), ('generator', SUB + ':set_q_n')], observe=['subcolumn fields of the dataset'])

P('C42', 'Instruments and scattering tables are in the units the simulator works in',
  'An instrument described by its frequency or its wavelength has both, with frequency in Hz, wavelength in um and their product '
  'the speed of light. Reading a table of scattering properties keeps every row in order and brings every column to SI units '
  'of its kind: sizes from um to m, cross sections from um2 to m2, volumes from um3 to m3; efficiencies, ratios and the sizes '
  'of bulk tables (in um) as they are, with effective radius half the effective diameter.',
  'every frequency, wavelength and value in the tables', 'tests read a few fixed tables', [INS, 'emc2/io/load_scat_file.py'],
  [('frequency and wavelength', INS + ':Instrument.__init__'), ('single particles', 'emc2/io/load_scat_file.py:load_scat_file'),
   ('Mie tables', 'emc2/io/load_mie_file.py:load_mie_file'), ('bulk tables', 'emc2/io/load_bulk_scat_file.py:load_bulk_scat_file')],
  observe=['attributes of the instrument', 'columns of the table'])

P('C43', 'What is plotted is the requested field, place, column, profile or mean',
  'Maps show each value of the requested place, subcolumn, time or column in its row (level) and column (time or subcolumn), with '
  'masked cells missing. Mean profiles and their spread are, level by level, the mean and standard deviation over the values '
  'present, not masked, in the requested time range (of the logarithm for geometric means; reflectivities are averaged in '
  'mm6 m-3). Plotting leaves the model and the arrays given as they were.',
  'every value, missing value, mask and the selections of the configurations',
  'tests compare images of a few plots', [PLT],
  [('mean and spread', PLT + ':SubcolumnDisplay.calc_mean_and_sd'), ('mean profile', PLT + ':SubcolumnDisplay.plot_subcolumn_mean_profile'),
   ('time series', PLT + ':SubcolumnDisplay.plot_subcolumn_timeseries'), ('profile', PLT + ':SubcolumnDisplay.plot_single_profile'),
   ('place', PLT + ':SubcolumnDisplay._switch_lat_lon')], observe=['arguments of the drawing calls'])

P('C44', 'P3 ice scatters by its rime fraction, rime density and particle mass (bulk)',
  'In the radiation approach the backscatter and extinction of P3 ice in a cell are the efficiencies tabulated for its rime '
  'fraction, rime density and mass per particle (the Mie tables if asked) times the projected area: the tabulated area per '
  'particle times the in-cloud number, for equivalent-volume or solid spheres in hybrid mode 2, or in hybrid mode 1 the area of '
  'geometric scatterers of the tabulated effective radius. Cells of a subcolumn without ice have none, liquid adds to it, and '
  'what the signal passes attenuates it.',
  'every rime fraction, rime density, particle mass, number, water content and occupancy; radar and lidar, the three hybrid '
  'modes, with and without liquid',
  'no test processes P3 output', [RAD, LID],
  [('radar', RAD + ':calc_radar_bulk'), ('lidar', LID + ':calc_lidar_bulk')])

P('C45', 'P3 ice moments integrate its gamma distribution and looked-up particles',
  'In the microphysics approach the radar reflectivity, backscatter-weighted mean velocity, spectral width and extinction, and '
  'the lidar backscatter and extinction, of P3 ice are integrals over the gamma size distribution given by its in-cloud number, '
  'normalised intercept, slope and shape, of the scattering and fall speed tabulated for the rime fraction and density of the '
  'cell (equivalent-volume spheres in hybrid modes, Mie spheres if asked), speeds scaled by air density, downward negative. It '
  'also works when ice is the only class.',
  'every rime fraction, rime density, number, slope, shape, intercept, air density and occupancy',
  'no test processes P3 output', [RAD, LID, PSD],
  [('moments', RAD + ':_calculate_other_observables'), ('total width', RAD + ':_calc_sigma_d_tot'),
   ('look-up', RAD + ':_set_p3_tiled_arrays'), ('lidar', LID + ':_calc_strat_lidar_properties'),
   ('distribution', PSD + ':calc_and_set_psd_params')])

P('C46', 'E3SMv3 ice is placed in the P3 tables, with the size distribution they imply',
  'Reading E3SMv3 output with an instrument gives every cell the rime fraction, rime density and mass per particle of its rime '
  'mass, rime volume, ice mass, cloud fraction and number, moved to the nearest end of the table where outside; the slope is '
  'interpolated there, the shape is 0.076 (slope/100)^0.8 - 2 within 0 and 6, and the intercept normalises the gamma '
  'distribution. The interpolators kept give the tabulated values at any such place.',
  'every ice and rime mass, rime volume, cloud fraction and number with values inside, below and above the table',
  'no test reads E3SMv3 output with an instrument', [MOD],
  [('limits', MOD + ':E3SMv3.limit_input_data_to_p3_lut_range'), ('slope', MOD + ':E3SMv3.interp_p3_ice_psd_params_to_grid'),
   ('shape', MOD + ':E3SMv3.calc_mu_n0_from_lambda')])

P('C47', 'An instrument uses its own tables, for its phase and temperature, in SI units',
  'Loading the scattering tables of an instrument takes, for each class and kind of optics, the file of that instrument and '
  'phase (supercooled liquid or warm as requested), and the single particle and bulk tables of P3 ice in SI units: areas and '
  'cross sections in m2, volumes in m3, sizes in m, everything else as tabulated, and missing fall speeds replaced by the '
  'smallest.', 'every value of the tables, missing anywhere', 'tests load the tables of a few instruments', [INS],
  [('tables of an instrument', INS + ':Instrument.load_instrument_scat_files')], observe=['tables of the instrument'])

P('C48', 'Calculated refractive indices and sphere cross sections are consistent',
  'The refractive index of water squares to the permittivity of the double Debye model at the wavelength and temperature, that '
  'of ice to the permittivity at its density. The properties of calculated spheres are the efficiencies asked for with the '
  'wavelength, sizes and refractive index in the right units: extinction, scattering and backscattering cross sections are '
  'efficiency times pi D^2/4 in m2, sizes in m, the size parameter is pi D over the wavelength. Axis ratios of drops follow the '
  'polynomial of Brandes et al.',
  'every wavelength, temperature, density, size and efficiency', 'tests need PyMieScatt and compare a few maxima',
  [MIE, 'emc2/scattering/ref_index.py'],
  [('water', 'emc2/scattering/ref_index.py:calc_microwave_ref_index'),
   ('ice', 'emc2/scattering/ref_index.py:calc_microwave_ref_index_ice'), ('spheres of water', MIE + ':scat_properties_water'),
   ('spheres of ice', MIE + ':scat_properties_ice'), ('shape of drops', MIE + ':brandes')],
  observe=['columns of the table returned'])

P('C49', 'Saved subcolumns hold every simulated field and load as they were',
  'Saving the subcolumns of a model writes every field the simulators made (cloud and precipitation, radar and lidar variables '
  'per class and in total, masks, COSP emulator fields), and loading the file into a model of the same output restores each with '
  'the same values, dimensions and attributes, leaving the other fields as they are.',
  'every value of the fields, missing anywhere', 'tests save a few fields of one simulation', [MOD],
  [('saving', MOD + ':Model.subcolumns_to_netcdf'), ('loading', MOD + ':Model.load_subcolumns_from_netcdf')],
  observe=['fields of the dataset'])

# ---- not within reach of this technique here (listed under not_applicable in MANIFEST.json)
NA = {}


def N(pid, title, statement, why_tests, files, mech, reason):
    P(pid, title, statement, 'every input', why_tests, files, mech)
    NA[pid] = reason


N('N01', 'Scattering efficiencies follow Lorenz-Mie theory',
  'The efficiencies of spheres of water and ice calculated for a frequency and a set of sizes are those of Lorenz-Mie theory with '
  'the refractive indices of the package.', 'tests compare a few sizes and fail here without PyMieScatt', [MIE],
  [('Mie calculation', MIE + ':scat_properties_water')],
  'the calculation is done by PyMieScatt, which is not installed here: there is no code to encode (and its series of complex '
  'Bessel functions with a number of terms that depends on the size is out of reach of the solver)')
N('N02', 'Random choices are unbiased',
  'Subcolumns for cloud and precipitation are chosen with equal probability among the candidates, and cloud water follows the '
  'prescribed gamma distribution.', 'tests compare statistics of a seeded run', [SUB],
  [('stratiform allocation', SUB + ':_allocate_strat_sub_col'), ('cloud water', SUB + ':_distribute_cl_q_n')],
  'a statement about probabilities, not about every outcome: the solver decides what holds for all outcomes of the random '
  'choices (C02 to C07), and how often an outcome comes up is a property of the random generator')
N('N03', 'Files are read and written faithfully',
  'Model output, tables and simulated fields survive being written to and read from files.', 'tests read a few files', [MOD],
  [('reading', MOD + ':Model.load_subcolumns_from_netcdf'), ('writing', MOD + ':Model.subcolumns_to_netcdf')],
  'the work is done in the netCDF and HDF5 libraries; the code of the package around them only names the file (what it does with '
  'the data is C37 to C39, C42, C47 and C49)')
N('N04', 'Results do not depend on the scheduling of parallel tasks',
  'With parallel processing every schedule of the tasks gives the same result.', 'tests run one scheduler', [SUB, RAD, LID],
  [('parallel moments', RAD + ':calc_radar_micro'), ('parallel subcolumns', SUB + ':set_q_n')],
  'the tasks are run and collected by dask, which is not code of this repository; each task reads its arguments and returns a '
  'new tuple, so there are no interleavings of this package to explore (that chunks are cut and joined rightly is in C02 to '
  'C07 and C24)')
