"""The catalogue of properties: single source of properties.jsonl and MANIFEST.json (see tools/gen.py)."""

SUB = "emc2/simulator/subcolumn.py"
RAD = "emc2/simulator/radar_moments.py"
LID = "emc2/simulator/lidar_moments.py"
MAIN = "emc2/simulator/main.py"
ATT = "emc2/simulator/attenuation.py"
CLS = "emc2/simulator/classification.py"
PSD = "emc2/simulator/psd.py"
MOD = "emc2/core/model.py"
STAT = "emc2/statistics_LLNL/statistical_aggregation.py"

RNG_TECH = "stateless model checking: exhaustive enumeration of the answers of the random module to the real allocator"
DET = "explicit-state enumeration of a bounded space of configurations, each executed on the real code and compared with a reference model"

PROPS = [
    dict(
        id="P01", title="Stratiform subcolumn allocation conserves cloud fraction",
        statement="For every model column, in every grid cell below the model top the number of subcolumns carrying stratiform cloud "
                  "liquid (cloud ice) equals the input cloud fraction times the number of subcolumns, rounded to the nearest integer, "
                  "whatever the random numbers drawn and whatever the overlap with the other phase, with the cells above, and with "
                  "convective cloud. Fractions accompanied by a negligible mixing ratio count as zero, and no subcolumn is "
                  "allocated outside the valid ones.",
        over=["inputs", "schedules"], text="all fraction/mass profiles, all outcomes of the random allocation, all overlaps with convective cloud",
        why="The existing tests allocate two fixed analytic profiles with whatever the unseeded generator returns; conservation must "
            "hold for every draw and every combination of liquid, ice and convective counts on adjacent levels.",
        files=[SUB], mech=[("maximum-random overlap allocation", SUB + ": set_stratiform_sub_col_frac / _allocate_strat_sub_col"),
                           ("fraction truncation", SUB + ": _correct_cloud_frac")],
        tech=RNG_TECH, level="model_checking",
        note="Every permutation is enumerated for 2-4 subcolumns and 2-3 active levels, larger grids with a small permutation alphabet "
             "and a deviation bound. Trusts that all randomness comes through numpy's random module."),
    dict(
        id="P02", title="Stratiform cloud obeys maximum-random overlap",
        statement="For every outcome of the random allocation, stratiform cloud in vertically adjacent cloudy cells overlaps as much as "
                  "the two counts (and convective columns) allow, liquid and ice in the same cell overlap as much as the allocation order "
                  "allows, and cloud separated by a clear cell is placed independently. Subcolumns that are in the same situation "
                  "are exchangeable: swapping two of them does not change the probability of an outcome.",
        over=["inputs", "schedules"], text="all count profiles, all outcomes of the random allocation (with their exact probabilities)",
        why="Tests compare only the mean fraction; overlap is a joint property of two levels and of all random outcomes, which "
            "sampled runs do not distinguish from nearly maximal or biased overlap.",
        files=[SUB], mech=[("reuse of the overlying mask before drawing new columns", SUB + ": _allocate_strat_sub_col, _randomize")],
        tech=RNG_TECH + ", with exact outcome distributions", level="model_checking",
        note="Exhaustive over permutations for 2-3(4) subcolumns on 2-3 levels; distribution weights are exact rationals under the "
             "assumption that numpy's permutations are uniform."),
    dict(
        id="P03", title="Convective subcolumns: exact counts, exclusive of stratiform cloud",
        statement="In every grid cell the convective cloud of each class occupies exactly round(fraction x number of subcolumns) "
                  "subcolumns (zero where its mixing ratio is negligible), always the same leading subcolumns so that classes and levels "
                  "overlap maximally. Stratiform cloud is never placed in a subcolumn holding convective cloud in that cell as long as the "
                  "prescribed counts fit, including with a single subcolumn.",
        over=["inputs", "schedules"], text="all fraction/mass pairs per class, both cloud-fraction logics, numbers of subcolumns, all random outcomes",
        why="Tests check one analytic profile at one subcolumn count; exactness of the count and exclusivity must hold for every "
            "combination of counts and every random outcome.",
        files=[SUB], mech=[("deterministic convective mask", SUB + ": set_convective_sub_col_frac"),
                           ("convective exclusion in the stratiform allocator", SUB + ": _allocate_strat_sub_col")],
        tech=RNG_TECH, level="model_checking",
        note="Counts are enumerated completely for 2-6 subcolumns; exclusion for 2-3 subcolumns with all permutations (deviation bound at 3)."),
    dict(
        id="P04", title="Precipitation allocation conserves fraction and falls from cloud",
        statement="For every outcome of the randomness, each precipitation class occupies round(fraction x number of subcolumns) subcolumns "
                  "of every cell below the model top. Occupied subcolumns are taken first from those with precipitation directly above, then "
                  "from cloudy ones, then from the rest, without bias among equivalent subcolumns.",
        over=["inputs", "schedules"], text="all precipitation counts of two or three classes on adjacent levels, all cloud masks, all random outcomes, stratiform and convective",
        why="Tests only look at means of one profile; priority among subcolumns is a relation between levels, classes and cloud masks "
            "which a single random draw cannot decide.",
        files=[SUB], mech=[("precipitation allocation", SUB + ": set_precip_sub_col_frac, _allocate_precip_sub_col")],
        tech=RNG_TECH + ", with exact outcome distributions", level="model_checking",
        note="Exhaustive over permutations for 2-3 subcolumns; 4-5 with a permutation alphabet."),
    dict(
        id="P05", title="Condensate is conserved when distributed among subcolumns",
        statement="For every class, cell and every sequence of random draws, the mean over subcolumns of the distributed mixing ratio equals "
                  "the grid-box mixing ratio, only subcolumns flagged as occupied receive mass or number, number follows the class rule, and "
                  "values are never negative. Distribution always terminates, also where occupied cells hold no condensate.",
        over=["inputs", "schedules"], text="all occupation masks, masses around the negligibility threshold, relative variances and random draws, with and without radiation logic",
        why="Tests compare one total for one random state; conservation and termination depend on the random draws, on rare masks and "
            "on the cell being the truncated one.",
        files=[SUB], mech=[("distribution of q and N", SUB + ": set_q_n, _distribute_cl_q_n")],
        tech=RNG_TECH, level="model_checking",
        note="Gamma draws are abstracted to three multiples of their mean; all masks for 2-4 subcolumns. Non-termination is judged by a "
             "watchdog 1000 times longer than a normal call."),
    dict(
        id="P06", title="Results do not depend on parallel execution mode or schedule",
        statement="Subcolumn generation and the radar and lidar simulators return bit-identical fields whether run serially, in parallel, or in "
                  "chunks of any size, for every order in which workers process the time columns and whether tasks share memory or are "
                  "isolated as in a process pool. Time columns keep their position.",
        over=["schedules", "configurations"], text="all task orders of every dispatched graph, all chunk sizes, shared or isolated worker memory, all simulator modes",
        why="The tests never use parallel or chunk; an order or chunk-boundary error needs a specific combination of column count, "
            "chunk size and worker order.",
        files=[SUB, RAD, LID], mech=[("dask bag dispatch and reassembly", "the parallel/chunk branches of " + ", ".join((SUB, RAD, LID)))],
        tech="stateless exploration of task schedules with a controlled dask scheduler on the real code", level="model_checking",
        note="Task order is enumerated at task granularity under a scheduler plugged into dask; for whole chains the number of departures "
             "from the default order is bounded."),
    dict(
        id="P07", title="Every time column is simulated independently of its neighbours",
        statement="The simulated fields of a time column are the same whichever other columns are processed with it, in whichever order and number; "
                  "clear, overcast, warm, cold and convective columns never influence each other.",
        over=["inputs", "histories"], text="all sequences of column archetypes up to a length, radar and lidar, radiation, microphysics and empirical logic",
        why="Tests use homogeneous or single columns and compare a few values; leakage between columns needs heterogeneous "
            "neighbours in a specific order.",
        files=[RAD, LID, ATT, CLS, SUB], mech=[("per-column processing", MAIN + ": make_simulated_data and the stages it calls")],
        tech="exhaustive enumeration of column sequences on the real code, differential against stand-alone columns", level="model_checking",
        note="Six archetype columns, sequences up to length 3; random answers fixed per request so columns are comparable."),
    dict(
        id="P08", title="Simulations are independent of what ran before on the model",
        statement="Running any simulator or generator on a model gives the same fields as running it once on a freshly generated model: "
                  "totals do not accumulate over repeated runs and no stage reads leftovers of another mode, instrument or class subset. "
                  "Model inputs, options passed in and instrument tables are left unchanged.",
        over=["histories"], text="all sequences of simulator, mode and generator calls up to a depth on one model object",
        why="Every test uses a fresh model and one call; leftovers only show in the second or third call of specific pairs.",
        files=[MAIN, RAD, LID, SUB, ATT, CLS], mech=[("fields accumulated in model.ds", "calc_radar_*, calc_lidar_*, calc_total_*")],
        tech="explicit-state search over operation histories executed on the real code, states hashed", level="model_checking",
        note="13 operations, all histories of length 2 and over six core operations of length 3; 17 operations and length 3-4 in thorough."),
    dict(
        id="P09", title="Totals over hydrometeor classes compose from the single classes",
        statement="For every subset and order of hydrometeor classes, total reflectivity, backscatter, extinction and optical depth are the sums of the "
                  "single-class contributions, the total Doppler moments are their power-weighted moments, and attenuated reflectivity "
                  "uses the extinction of all classes. A class contributes exactly where it is present, and results of one class do not change "
                  "because others are simulated.",
        over=["inputs", "configurations"], text="all ordered subsets of classes, all presence combinations of classes in a cell, all logics, instruments and both cloud types",
        why="Tests compare single values for a fixed class list; dropped or double counted classes show only for particular subsets, orders and "
            "presence patterns.",
        files=[RAD, LID, ATT], mech=[("accumulation of totals", RAD + ": accumulate_attenuation, calc_radar_*; " + LID + ": calc_lidar_*")],
        tech=DET, level="model_checking",
        note="64 ordered subsets times 16 presence patterns per cell times all modes; reference is composition of the code's own single-class runs."),
    dict(
        id="P10", title="Signals are attenuated along the path from the instrument",
        statement="Optical depth and two-way transmission at a level are determined exactly by the hydrometeors and gases between the instrument (surface or "
                  "top of atmosphere) and that level, never by what lies beyond it, with layer thickness in metres whatever the height units. Every "
                  "attenuated field is its unattenuated field times exp(-2 eta x optical depth) and the clear-air transmission.",
        over=["inputs", "configurations"], text="all vertical patterns of clear/thin/thick layers, height grids, both viewing directions, all logics, multiple-scattering factors",
        why="Tests look at one profile from the surface; direction and layer-offset errors need profiles with isolated layers seen from both sides.",
        files=[RAD, LID, ATT], mech=[("path integrals", ATT + ": calc_radar_atm_attenuation, calc_theory_beta_m; " + LID + "; " + RAD)],
        tech=DET, level="model_checking",
        note="All patterns on 4 levels (5 in thorough) x grids x directions x logics, compared with an explicit path integral over reported layer extinction."),
    dict(
        id="P11", title="Total radar echo and detection mask follow the sensitivity",
        statement="The total (attenuated and unattenuated) reflectivity of a cell is the power sum of its stratiform and convective echoes, "
                  "also when only one is present. The detection mask is set exactly where the attenuated echo lies below the radar's minimum "
                  "detectable reflectivity, which grows with 20 log10 of range over the reference range, in any height units.",
        over=["inputs", "configurations"], text="all profiles of absent/weak/strong stratiform and convective echoes, sensitivities, reference ranges, height units",
        why="Tests check one sensitivity and one reference range; sums of absent and present echoes and unit or range options need combinations.",
        files=[RAD, ATT, MAIN], mech=[("total reflectivity", RAD + ": calc_total_reflectivity"), ("sensitivity", ATT + ": calc_radar_Ze_min")],
        tech=DET, level="model_checking",
        note="729 profiles x modes x sensitivities x reference ranges; exact ties and echo-free cells are not judged."),
    dict(
        id="P12", title="Lidar depolarization, totals and extinction masks match their definition",
        statement="The simulated linear depolarization ratio of a cell is the backscatter-weighted mean of the ratios of the classes present, separately "
                  "for stratiform, convective and all clouds, for any subset of classes and any ratio table. Total signals add "
                  "the cloud types up, and the attenuated total is that of particles and molecules behind the optical depth of both. The extinction mask marks exactly the "
                  "cells on the far side of where the optical depth, seen from the instrument, exceeds the threshold.",
        over=["inputs", "configurations"], text="all presence combinations of classes in both cloud types, all class subsets, optical depth profiles, thresholds and directions",
        why="Tests check no mixture of classes and no mask position; both depend on combinations and profile shape.",
        files=[LID], mech=[("depolarization and extinction", LID + ": calc_LDR_and_ext, calc_total_alpha_beta")],
        tech=DET, level="model_checking",
        note="All 256 presence combinations x 15 subsets x logics; all 4^4 optical depth profiles x thresholds x directions."),
    dict(
        id="P13", title="Classification masks give every cell the class its signals fall in",
        statement="Every subcolumn cell of the lidar phase masks gets exactly the class whose region of the backscatter-depolarization plane "
                  "contains its signals, undetermined or clear outside all regions, and nothing where the lidar is extinguished; radar-sounding masks "
                  "mark exactly the cells with cloud and echo above the sensitivity. Options and custom tables act as documented, per cloud type and for all clouds.",
        over=["inputs", "configurations"], text="all combinations of backscatter, depolarization, optical depth and sensitivity regions, threshold tables and options",
        why="Tests sample a few cells with the default table; boundary handling, absent signals and table order need the full product.",
        files=[CLS, MAIN], mech=[("fixed-threshold and radar-sounding masks", CLS + ": lidar_classify_phase, radar_classify_phase")],
        tech=DET, level="model_checking",
        note="Full product of signal values on both sides of every threshold x options x tables, judged cell by cell."),
    dict(
        id="P14", title="COSP-style masks and phase ratios follow from the simulated signals",
        statement="The emulated COSP attenuated backscatter, scattering ratio and phase of every cell are those of the published algorithm applied to the "
                  "simulated backscatter of the chosen classes (every class of the model, graupel, hail and further ice classes included), seen from the instrument. Frequency and mass phase ratios equal the counts "
                  "or mass of numerator classes over those of denominator classes in that grid cell.",
        over=["inputs", "configurations"], text="all profiles of cell contents, directions, multiple-scattering factors, class subsets; all mask contents x numerator/denominator choices",
        why="A profile-dependent algorithm (path attenuation, cloud above or below) with a handful of test columns leaves most branches and orders unseen.",
        files=[CLS], mech=[("COSP emulator, phase ratios", CLS + ": lidar_emulate_cosp_phase, calculate_phase_ratio")],
        tech=DET, level="model_checking",
        note="All 8^3 profiles of cell contents, also with class sets that hold graupel, hail, snow or rimed ice (8^4 in thorough) against an independent scalar implementation; all 5^4 mask contents by counting."),
    dict(
        id="P15", title="Reshaping and cropping keep every value at its own coordinates",
        statement="Stacking and unstacking time, latitude and longitude, reordering dimensions, cropping in time or to a bounding box and removing appended "
                  "site strings never move a value to other coordinates, drop or duplicate values inside the range, or change simulated results. "
                  "Unstacked results equal those of simulating every column by itself.",
        over=["inputs", "configurations"], text="all dimension sizes, orders and subsets, all crop ranges and boxes, all sub-domain layouts",
        why="Tests use one data set layout; transpositions and off-by-one edges show only for other sizes, orders and squeezed dimensions.",
        files=[MOD, MAIN], mech=[("stack/unstack", MOD + ": check_and_stack_time_lat_lon, unstack_time_lat_lon, permute_dims_for_processing"), ("crop", MOD + ": _crop_time_range, _crop_bounding_box, remove_appended_str")],
        tech=DET, level="model_checking",
        note="Every cell is tagged with its coordinates; all layouts with sizes 1-3 of each dimension, present or absent (1-4 in thorough)."),
    dict(
        id="P16", title="Saved subcolumn output restores exactly and removal touches only its target",
        statement="After any history of saving, loading, changing and deleting files, loading a file restores exactly the subcolumn fields, types, "
                  "attributes and subcolumn count saved in it, independent of the file afterwards, and processing resumed from them gives the original results. "
                  "Finalizing and removing fields changes exactly the fields it is meant for.",
        over=["histories", "inputs"], text="all histories of save, load, change and delete over two files; all instruments, logics, classification and convection settings",
        why="Tests save once and load once; dependence on the file after loading and fields left out need histories and all simulation modes.",
        files=[MOD], mech=[("save/load", MOD + ": subcolumns_to_netcdf, load_subcolumns_from_netcdf"), ("fields", MOD + ": finalize_subcol_fields, remove_subcol_fields")],
        tech="exhaustive enumeration of operation histories on the real code against a reference store", level="model_checking",
        note="All histories of 5 operations (6 in thorough) with real files in a scratch directory, plus 64 whole-simulation round trips."),
    dict(
        id="P17", title="Vertical regridding averages over overlapping layers and conserves the signal",
        statement="Every bin of a regridded radar or lidar profile holds the thickness-weighted mean, in linear units, of the model layers that overlap it; "
                  "bins below ground or without a layer are marked as such. The integral over the column is conserved, and the extracted signals and "
                  "scattering ratios belong to the grid cells they are reported for.",
        over=["inputs"], text="all pairs of non-uniform old and new vertical grids, profiles with absent values, linear and decibel units",
        why="Tests run one grid pair; bins that split layers, exceed the model top, or lie below ground need other pairs.",
        files=[STAT], mech=[("regridding", STAT + ": COSP_CHANGE_VERTICAL_GRID, get_regridded_ze_att_tot, get_radar_lidar_signals, calculate_SR")],
        tech=DET, level="model_checking",
        note="All pairs of edge sequences over small lattices, judged bin by bin against exact interval overlap."),
    dict(
        id="P18", title="Lidar cloud fraction and height-frequency diagrams count subcolumns exactly",
        statement="Lidar cloud fraction at each time, level and column is the share of subcolumns with a valid signal whose scattering ratio marks cloud, and "
                  "height-frequency diagrams count each subcolumn value exactly once in its bin; absent values count nowhere, and values of one column or level "
                  "never enter another. Saving writes the diagrams, their radar bins and the cloud fraction as given beside the model's own fields and changes none of them.",
        over=["inputs"], text="all tuples of subcolumn values around every threshold and bin edge, array shapes and column indices; all shapes and short histories of saving",
        why="Tests check shapes and one value; edges, absent values and column mix-ups need all tuples.",
        files=[STAT], mech=[("counting", STAT + ": calculate_lidar_CF, get_cfaddBZ, get_cfad_SR"), ("saving", "emc2/statistics_LLNL/statistical_output.py: save_cfads_to_nc")],
        tech=DET, level="model_checking",
        note="All 9^3 tuples of subcolumn values (9^4 in thorough) against counting."),
    dict(
        id="P19", title="Scattering variables of every cell are those of its own hydrometeors",
        statement="In every cell the reflectivity, Doppler velocity, spectral width, attenuation, backscatter and extinction of each class follow from the "
                  "mixing ratio, number, size, temperature and density of that class in that cell and the table of its phase, for every forward logic "
                  "and option. Cells without the class get nothing.",
        over=["inputs", "configurations"], text="all combinations of masses, temperatures, sizes and numbers of all classes, all logics and options, several radars and lidars",
        why="Tests compare single numbers of one homogeneous column; a wrong index, table, unit or neighbour cell needs heterogeneous columns and every option.",
        files=[RAD, LID, PSD], mech=[("radar forward operators", RAD + ": calc_radar_empirical, calc_radar_bulk, calc_radar_micro"),
                                     ("lidar forward operators", LID + ": calc_lidar_empirical, calc_lidar_bulk, calc_lidar_micro")],
        tech=DET, level="model_checking",
        note="The lattice of cell contents times all presence combinations and options is enumerated and each cell compared with a scalar reference; values between lattice points are not covered."),
    dict(
        id="P20", title="Gas absorption and molecular scattering follow the local air, in any units",
        statement="Water vapour and oxygen absorption and molecular scattering of every cell follow the documented formulas from its own pressure, temperature, humidity "
                  "and the instrument's frequency or wavelength. Whole simulations, including classification, do not depend on the units (Pa or hPa, K or degC, m or km) in which "
                  "the model supplies its fields.",
        over=["inputs", "configurations"], text="all combinations of pressures, temperatures, humidities, frequencies, wavelengths, directions and input units",
        why="Tests use one sounding and one unit per field; regime boundaries (25 and 333 hPa) and other units need the product.",
        files=[ATT, LID, CLS], mech=[("gases", ATT + ": calc_radar_atm_attenuation"), ("molecules", ATT + ": calc_theory_beta_m")],
        tech=DET, level="model_checking",
        note="Lattice of states on both sides of each regime boundary; all 12 (18) unit combinations for radar and lidar, all logics."),
    dict(
        id="P21", title="Particle size distributions hold the number and mass of their cell",
        statement="For every class, cell and scheme the gamma size distribution used in the forward calculations integrates to the number concentration of that cell and "
                  "its mass to the cell's hydrometeor mass per volume, with the particle density of the class. Its shape parameter follows the documented dispersion "
                  "rule of the model within the given bounds, for cloud liquid only.",
        over=["inputs", "configurations"], text="all combinations of mixing ratio, number, air and particle density, class, scheme, model, dispersion option and bounds",
        why="Tests look at the sign of differences for one option; closure must hold for each scheme, class, density and option.",
        files=[PSD], mech=[("PSD parameters", PSD + ": calc_mu_lambda, calc_and_set_psd_params")],
        tech=DET, level="model_checking",
        note="Lattice of contents times all options; moments by closed form everywhere and by numerical integration on a subset. One known finding (unit of the droplet number in the dispersion)."),
    dict(
        id="P22", title="P3 ice is simulated from the particle population of its own cell",
        statement="For E3SMv3 (P3 microphysics) every ice cell gets the rime fraction, rime density, mass per particle and number that its own mixing ratio, air density, "
                  "cloud fraction and number give, limited to the range of the tables. Its radar and lidar variables follow from the tables interpolated at exactly that population, "
                  "for both logics, all habit blends and any earlier simulation, and cells without ice get nothing.",
        over=["inputs", "configurations", "histories"],
        text="all combinations of rime fraction, rime density, mass, number, cloud fraction and air density around every table edge, all options, ordered pairs of simulations",
        why="No test loads a P3 model; a stale interpolator, swapped axis, missing factor or wrong edge needs heterogeneous cells, every option and repeated runs.",
        files=[RAD, LID, MOD, PSD], mech=[("P3 population", MOD + ": E3SMv3, limit_input_data_to_p3_lut_range, interp_p3_ice_psd_params_to_grid"), ("P3 interpolation", RAD + ", " + LID + ": calc_*_bulk, calc_*_micro, interpobj")],
        tech=DET, level="model_checking",
        note="Lattice of populations on, between and outside table nodes, each cell compared with a scalar trilinear reference; values between lattice points are not covered."),
    dict(
        id="P23", title="Instruments carry the scattering tables of their own band, phase and options",
        statement="Every instrument, with every option and valid site, can be built and holds for each class the single-particle and bulk tables of its own wavelength, "
                  "liquid temperature and ice density, in SI units and consistent with each other (areas, volumes, efficiencies, size integrals) and with its refractive index and "
                  "frequency. Its band, viewing direction, detection limit at 1 km, dielectric factor, multiple scattering factor, full-extinction limit, phase-mask regions "
                  "and permittivity of liquid (square of the index of its liquid table) are those of the instrument its class and site name. Tables of one instrument are unaffected by anything done to another; unknown sites are rejected.",
        over=["configurations", "histories"], text="all instrument classes x sites x options, every row of every table, all ordered pairs of instruments sharing files",
        why="Tests build a few instruments and look at single results; a wrong file, unit or shared array shows only for some instrument and option.",
        files=["emc2/core/instrument.py", "emc2/core/instruments.py", "emc2/io/load_mie_file.py", "emc2/io/load_scat_file.py", "emc2/io/load_bulk_scat_file.py"],
        mech=[("table loading", "emc2/core/instrument.py: load_instrument_scat_files"), ("unit conversion", "emc2/io: load_mie_file, load_scat_file, load_bulk_scat_file"),
              ("instrument definitions", "emc2/core/instruments.py")],
        tech=DET, level="model_checking",
        note="Complete space of constructors and options; compared with an independent reading of the files and with physical closures. Two known findings (backscatter per steradian in radar tables, corrupt 1064 nm table)."),
    dict(
        id="P24", title="Loading model output gives every cell its own values",
        statement="Loading an output file of ModelE, E3SMv1, E3SMv3, CESM2, WRF or DHARMA gives every input column exactly once with each of its fields at its own coordinates, "
                  "in ascending height, in the units the simulator works with (pressure in hPa, numbers per cm3 from the mass mixing ratio with the air density, effective radii in micron), "
                  "for every size and order of the dimensions, every layout and every class option. Time ranges keep exactly the instants start <= t < end whether given as tuple, list or array, "
                  "bounding boxes keep exactly the cells inside, and the file on disk is left as it was.",
        over=["inputs", "histories"], text="all sizes and orders of dimensions, layouts, class and scheme options, time ranges and bounding boxes",
        why="The existing tests build the synthetic test models in memory or open one file without options; they sample no layout, "
            "no order of dimensions, no cropping and no unit conversion of the four loaders.",
        files=[MOD], mech=[("loaders", MOD + ": ModelE, E3SMv1, E3SMv3, CESM2, WRF, DHARMA.__init__"),
                           ("cropping", MOD + ": _crop_time_range / _crop_bounding_box / _crop_bounding_box_x_y"),
                           ("stacking", MOD + ": check_and_stack_time_lat_lon / unstack_time_lat_lon / remove_appended_str")],
        tech=DET, level="model_checking",
        note="wrf-python is not installed: its getvar is replaced by a reader of fields stored in the same file. Quick enumerates all orders of the dimensions for one "
             "option set per model and a fifth of them for the others; thorough all of them."),
    dict(
        id="P25", title="One call does what the documented stages do",
        statement="For every combination of its options, make_simulated_data produces the same fields as calling the subcolumn generators, the moment calculators of stratiform and "
                  "convective cloud, the totals and the classifications one after the other with the corresponding arguments; options left out take their documented default "
                  "(viewing direction, eta and extinction optical depth of the instrument, radiation logic, ice habits with radiation logic and spheres with microphysics logic, 1 km "
                  "reference range), and a stage is left out only if the options ask for it.",
        over=["inputs", "histories"], text="all combinations of up to a bounded number of options departing from their default, for both instruments, all logics, with and without convection",
        why="The tests call make_simulated_data with two or three option sets and look at one mean; a dropped, swapped or shadowed option shows only in the combination that uses it.",
        files=["emc2/simulator/main.py"], mech=[("driver", "emc2/simulator/main.py: make_simulated_data"),
                                                ("finalizing", "emc2/core/model.py: finalize_subcol_fields / unstack_time_lat_lon")],
        tech=DET, level="model_checking",
        note="Differential: the stages themselves are judged by the other properties. Options up to the deviation bound are enumerated completely."),
    dict(
        id="P26", title="Displays show exactly the selected data",
        statement="Every figure shows, at the time and height (or pressure) of every grid cell, the value of the selected variable for the selected subcolumn, time, column or coordinates "
                  "in the documented unit; missing and masked cells are blank (or hatched) and enter no mean; means are taken over all dimensions but height, reflectivities as linear power; "
                  "colour limits and scales given are used; class masks carry one tick and colour per class in order. Drawing changes neither the model, nor the arrays passed in, nor what "
                  "other drawings show.",
        over=["inputs", "histories"], text="all small datasets, selections (subcolumn, time, column, coordinates by index or value), axes, masks, colour options and ordered pairs of drawings",
        why="The plotting tests only look at a returned axis object; a transposed, shifted, mis-selected or silently modified field yields a figure that looks fine.",
        files=["emc2/plotting/subcol_display.py", "emc2/statistics_LLNL/statistical_plots.py"],
        mech=[("curtains, profiles and means", "emc2/plotting/subcol_display.py: SubcolumnDisplay"), ("gridded and all-subcolumn figures", "emc2/statistics_LLNL/statistical_plots.py")],
        tech=DET, level="model_checking",
        note="Read back from the matplotlib artists: rasterisation, fonts and label texts are not judged. Curtains need two times and two levels for their cells to have an extent."),
    dict(
        id="P27", title="Scattering by spheres follows Mie theory at the particles asked for",
        statement="scat_properties_water and scat_properties_ice return, for every particle in the order passed and independently of the others, its diameter in meters, its size parameter, "
                  "the extinction, scattering, absorption, radiation pressure and backscattering efficiencies and asymmetry of Mie theory for the refractive index of water (Meissner and Wentz) or "
                  "dry ice of the given density at the given wavelength, temperature and pressure, and the cross sections in m2 that belong to them under the names the particle tables use; "
                  "drop axis ratios follow Brandes et al.; the arguments are left unchanged.",
        over=["inputs"], text="all sequences of up to a bounded number of diameters, wavelengths, temperatures, pressures, densities and containers, and long grids",
        why="The one test per phase correlates curves with a table (r > 0.8), which swapped cross sections, another diameter grid or a wrong scale pass.",
        files=["emc2/scattering/mie_scattering.py", "emc2/scattering/ref_index.py"],
        mech=[("spheres", "emc2/scattering/mie_scattering.py: scat_properties_water, scat_properties_ice"), ("refractive indices", "emc2/scattering/ref_index.py"),
              ("drop shape", "emc2/scattering/mie_scattering.py: brandes")],
        tech=DET, level="model_checking",
        note="Dimension order of enumeration: every sequence of up to 3 (thorough 4) of 7 diameters including repeated and unsorted ones. Continuous arguments are sampled on a lattice; between its points nothing is claimed."),
    dict(
        id="P28", title="Every model class carries the microphysics of its scheme",
        statement="A file loaded by ModelE, E3SMv1, E3SMv3, CESM2, WRF or DHARMA with any options is simulated with the published microphysics of that model's scheme: the classes the "
                  "options ask for, and for each of them its own mixing ratio, number, fraction and effective radius fields, density, lidar and depolarization ratios, fall speed relation "
                  "and reference air density, size distribution and radiation family. Its simulated output equals that of a bare Model configured by hand with those values, whatever "
                  "other models exist in the process.",
        over=["configurations", "histories"], text="all model classes x all combinations of their options x instruments x logics, built alone and beside models of other classes",
        why="Tests load one file per class and compare subcolumn signals of a column or two for one option and logic; a parameter of one class of one scheme shows in no number they look at.",
        files=[MOD], mech=[("model classes", MOD + ": ModelE, E3SMv1, E3SMv3, CESM2, WRF, DHARMA"), ("generic model", MOD + ": Model")],
        tech=DET, level="model_checking",
        note="All 27 configurations x 2 instruments x all logics they support; differential against a bare Model configured from the table of published parameters, plus the parameters themselves."),
    dict(
        id="P29", title="A processed dataset carries on where it was saved",
        statement="A dataset processed at any stage (loaded, with subcolumns, with radar or lidar signals, finalized) that is saved and loaded again as processed data holds every field as it was, "
                  "in the layout it was saved in, with the microphysics of its model class, and all further processing gives what it gives without the file. Loading with a time range keeps "
                  "exactly the instants start <= t < end, and the file on disk is left as it was.",
        over=["histories", "inputs"], text="all short sequences of processing operations x all subsets of points at which the data go through a file x model classes and options x time ranges",
        why="Tests never load processed data; a conversion, flip or crop done twice or not at all shows only after a particular history.",
        files=[MOD], mech=[("loading processed data", MOD + ": ModelE, E3SMv1, E3SMv3, CESM2, DHARMA (load_processed)"), ("merging", MOD + ": load_subcolumns_from_netcdf")],
        tech=DET, level="model_checking",
        note="Every history is compared with the same operations without the file; all variables, sizes, values and attributes."),
    dict(
        id="P30", title="Stages out of order are refused; all permitted orders give the same model",
        statement="The public stages of a simulation (convective, stratiform and precipitation fractions, mixing ratios, radar and lidar moments, sensitivity, totals, depolarization, "
                  "classifications, COSP emulation, phase ratios) may be called in every order in which each finds what it needs, and all such orders, for one or for several instruments on one "
                  "model, end in the same dataset; calling a completed stage again changes nothing. A stage called before what it needs, with the wrong kind of instrument, another "
                  "number of subcolumns, or an unknown class or mask raises an error and leaves every field the model already had as it was; it never goes on with something missing treated as absent.",
        over=["schedules", "histories"], text="all orders of all public stages, convective and stratiform, radar and lidar, and every misuse in every intermediate state",
        why="Tests call the stages in the one documented order; a stage that silently takes a missing predecessor for clear sky, or reads what a later stage left, works in that order.",
        files=[SUB, RAD, LID, CLS, ATT], mech=[("generator stages", SUB + ": set_convective_sub_col_frac, set_stratiform_sub_col_frac, set_precip_sub_col_frac, set_q_n"),
               ("signals", RAD + ", " + LID + ": calc_radar_moments, calc_lidar_moments, calc_total_reflectivity, calc_total_alpha_beta, calc_LDR_and_ext"), ("classification", CLS)],
        tech="explicit-state model checking: breadth-first search over the sets of completed stages, every transition executed on the real code, confluence and refusal checked on each", level="model_checking",
        note="The complete lattice of stage sets (up to 120 states per instrument with convection, all transitions and 17 misuses in each state); one mixed scene of three columns."),
    dict(
        id="P31", title="Results follow from the physical state, not from its representation",
        statement="A simulation gives the same subcolumns, signals, totals and masks whichever way the same physical state is held: pressure, temperature and height in any units their units "
                  "attribute names, any byte or memory order, read-only, strided or lazily loaded arrays, any names of the two dimensions, numeric or datetime time axes, fields as coordinates, "
                  "unrelated variables, missing or additional attributes. Inputs in single precision give the same masks and, up to rounding, the same signals. The model's own input "
                  "fields and their attributes are left as they were.",
        over=["inputs"], text="all storages x all companions with and without other units, and every unit with every storage and companion, in every logic, for radar and lidar, ModelE, CESM and P3",
        why="Tests load one file per model; a stage that takes units, precision or ownership of an array for granted works for that file and silently shifts results for the next model.",
        files=[ATT, RAD, LID, SUB, PSD, CLS], mech=[("units", RAD + ", " + LID + ", " + ATT + ": conversions at the start of each stage"), ("storage", SUB + ": set_q_n and allocation"),
                                              ("fits", PSD)],
        tech=DET, level="model_checking",
        note="Full product of storage x companion at one set of units, all pairs with units; full product of units in the thorough tier. Units of mixing ratio and number are not judged (EMC2 documents one)."),
]


def entry(p):
    d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
    return d


def check(p):
    return {"property": p["id"], "quick_cmd": "bash run.sh %s --tier quick" % p["id"],
            "thorough_cmd": "bash run.sh %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["tech"], "level": p["level"], "level_note": p["note"]}
