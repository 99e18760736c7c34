"""Writes properties.jsonl (kept as Python so that it stays readable)."""
import json
from pathlib import Path

S = "src/wam2layers/"
CORE, BACK, FORW = S + "tracking/core.py", S + "tracking/backtrack.py", S + "tracking/forwardtrack.py"
IO, SH, CFG = S + "tracking/io.py", S + "tracking/shared.py", S + "config.py"
CAL, GRID, PROF = S + "utils/calendar.py", S + "utils/grid.py", S + "utils/profiling.py"
PRE, ERA5, CMIP, ARCO = (S + "preprocessing/" + f for f in
                         ("shared.py", "era5.py", "cmip.py", "arco.py"))
PL, PU, IV, APP = (S + "preprocessing/" + f for f in
                   ("pressure_levels.py", "utils.py", "input_validation.py", "xarray_append.py"))
TR_ = S + "utils/tagging_region.py"
SHP, DL, CLI, VIZ = (S + f for f in ("utils/shapefile_mask.py", "download.py", "cli.py",
                                     "analysis/visualization.py"))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


REG = ("Two regression runs compare one backward and one forward case with stored output "
       "of the same code; ")
TR = [("s_track_upper_restart / s_track_lower_restart", "tracked water in both layers", BACK + ", " + FORW)]

prop("C01", "The tracked-water budget closes in every output interval",
     "In every output interval of a forward or backward run, the change of tracked water in the atmosphere equals tagged water minus tracked precipitation (forward) or evaporation (backward), minus reported losses, plus reported gains, all weighted with the cell areas and summed over the domain. No other water appears or disappears, whatever the weather, layer storages, time step, mixing factor and boundary type.",
     ["inputs", "histories", "configurations"],
     "all sequences of steps over the weather, storage and rain alphabets, both directions, open and periodic domains",
     REG + "neither checks conservation, and both lie in one weather situation with an open domain.",
     [BACK, FORW, CORE], [("state update and bookkeeping", BACK + ":backtrack"), ("state update and bookkeeping", FORW + ":forwardtrack"), ("donor cell scheme", CORE + ":horizontal_advection")], TR,
     ["output files: s_track_*_restart, e_track, p_track_*, tagged_*, losses, gains"])
prop("C02", "Tracked water stays within its physical bounds",
     "In every output file all fields are finite, and tracked storage, tracked fluxes, losses and gains are never negative. Tracked water in a layer never exceeds the water in that layer at that time, tracked precipitation (forward) or evaporation (backward) never exceeds the precipitation or evaporation that fell in the interval, and tagged water is at most the precipitation or evaporation in the tagging region. This also holds with calm cells, nearly empty layers, rapid drying, cloudbursts and winds far beyond the stable limit.",
     ["inputs", "histories", "configurations"],
     "all sequences of steps over the weather, storage and rain alphabets, both directions, open and periodic domains",
     REG + "their weather has no calm, nearly empty or overfull cells.",
     [BACK, FORW, CORE], [("clipping of relative storage and overshoot redistribution", BACK + ":backtrack, " + FORW + ":forwardtrack"), ("flux limiting", CORE + ":stabilize_fluxes")], TR,
     ["output files"])
prop("C03", "Horizontal advection is an upwind, conservative exchange",
     "Through every cell face inside the domain moves exactly the face flux times the relative content of the cell the wind blows from, in both coordinate directions and for every combination of wind directions; what leaves one cell enters its neighbour. Nothing is exchanged through the outer edge of an open domain, and in a periodic domain the first and last column are neighbours while the northern and southern edges stay closed. Face fluxes are the mean of the two adjacent cells.",
     ["inputs", "configurations"],
     "all assignments of contents and fluxes from small alphabets to a cell neighbourhood and to small complete grids, open and periodic",
     "One doctest moves a single blob with one wind direction; the regression runs have an open domain.",
     [CORE, GRID], [("donor cell scheme", CORE + ":horizontal_advection"), ("face fluxes", GRID + ":stagger_x, stagger_y")])
prop("C04", "Periodic runs do not depend on where the grid starts",
     "With periodic boundaries on a grid that covers all longitudes, rotating all input by any number of columns rotates every output field by the same number of columns and changes nothing else. In an open domain, tracked water that reaches any edge cell is removed and reported as a loss there; in a periodic domain this happens only at the northern and southern edge rows.",
     ["inputs", "configurations", "histories"],
     "all rotations of the grid, all weather symbols, both directions",
     "No test runs the tracker with periodic boundaries.",
     [CORE, GRID, BACK, FORW], [("periodic padding", CORE + ":pad_x_wrap, horizontal_advection, divergence"), ("edge mask", GRID + ":get_boundary")], TR, ["output files"])
prop("C05", "The stability correction only ever limits fluxes to the stable range",
     "After the stability correction the zonal plus meridional flux of a layer in a cell moves at most half of the water in that layer and cell in one time step. The correction keeps the direction of each component, never amplifies it, leaves it unchanged when it is already within its share of the limit, and turns zero flux into zero flux rather than a missing value.",
     ["inputs", "configurations"],
     "all combinations of flux components, storages, cell sizes and time steps from alphabets spanning calm to far beyond the limit, for both layers",
     "No test calls the correction; the regression runs only reach the magnitudes of two weather situations.",
     [CORE], [("flux limiting", CORE + ":stabilize_fluxes")])
prop("C06", "Vertical exchange closes the layer budgets within its limit",
     "The vertical flux distributes the residual of the column water balance (storage change, horizontal divergence, precipitation, evaporation) over both layers in proportion to their water, is directed from the layer with surplus to the one with deficit, and never moves more than the 1/(1+kvf) part of the smaller layer in a time step. Tracked water is carried by it from the layer it leaves, with an additional exchange of kvf times the flux along the difference in tracked fraction; what one layer loses by vertical exchange the other gains.",
     ["inputs", "configurations"],
     "all combinations of storages before and after, divergences, precipitation, evaporation, mixing factors and time steps from alphabets covering both signs of the flux and both sides of the limit",
     "The doctest in the code cannot run; regression runs compare with output of the same code.",
     [CORE, BACK, FORW], [("closure term", CORE + ":calculate_fz, divergence"), ("vertical transport", CORE + ":vertical_advection, vertical_dispersion")])
prop("C07", "Input at any time is the interpolation of the stored fields",
     "Requesting states or fluxes at a stored time returns exactly the stored fields, and in between the linear interpolation in time of the two neighbouring stored fields, also across midnight into another file, on every calendar and input frequency. The answer depends only on the requested time and domain: it is the same whatever was requested before and whatever was done to earlier answers.",
     ["inputs", "histories"],
     "all sequences of requests and in-place modifications of earlier answers up to a depth, over times on, between and across files",
     "Runs only ever request times in steps of one pattern, so cache and interpolation faults with other histories stay unseen.",
     [IO, CAL], [("slice cache and copy", IO + ":_load_slice_with_cache, load_slice"), ("interpolation", IO + ":load_data"), ("floor and ceil of times", CAL + ":round_cftime")],
     [("cached slices", "last six slices read from file", IO + ":_load_slice_with_cache")])
prop("C08", "Restarting from any output continues the same run",
     "If a run is interrupted and a new run with restart enabled starts at the time of any output file already written (its start date for forward runs, its end date for backward runs), then all later output files are the same as those of an uninterrupted run, up to single precision. The restarted run leaves the outputs before the restart point as they were.",
     ["crash_points", "histories", "configurations"],
     "all interruption points (after every output, and chains of several restarts), both directions",
     "No test enables restart.",
     [BACK, FORW, IO], [("reload of the last state", BACK + ":initialize, " + FORW + ":initialize"), ("state in output", IO + ":write_output")], TR, ["output files"])
prop("C09", "Output appears exactly on schedule and loses nothing in between",
     "A run writes one output file at every multiple of the output frequency that a time step reaches and one after the last step, named after and labelled with that time, and no others; the step that ends exactly at the end (forward) or start (backward) of the tracking period is included. Accumulated fields hold only what happened since the previous output, so summed over a run they do not depend on the output frequency, nor do the storages written at the same time.",
     ["configurations", "histories"],
     "all combinations of tracking periods, time steps and output frequencies from alphabets including periods that are no multiple of the frequency, both directions",
     "Both regression runs use one frequency and period.",
     [BACK, FORW, IO, CAL], [("output decision and flush", BACK + ":run_experiment, " + FORW + ":run_experiment"), ("file name and labels", IO + ":output_path, write_output")])
prop("C10", "Water is tagged exactly in the tagging region and period",
     "Tagged precipitation (backward) or evaporation (forward) in an output equals the sum over the steps in its interval whose starting time (the later end of a step in backward runs) lies in the tagging period, both ends included, of the flux at mid-step times the region weight of the cell times the step. The weight is 1 inside and 0 outside a bounding box with inclusive bounds, also if it crosses the antimeridian, and the value of the given mask (at the nearest time if it varies in time) otherwise. Without tagging no tracked water exists at any time.",
     ["configurations", "inputs"],
     "all bounding boxes over a set of bounds on, between and outside grid lines, all tagging windows over step times and their neighbours, fixed and time-varying masks, both directions",
     "The regression runs use two masks and one window each; bounding boxes and time-varying regions are never tracked with.",
     [BACK, FORW, SH, IO], [("tagging decision", BACK + ":run_experiment, " + FORW + ":run_experiment"), ("region mask", SH + ":initialize_tagging_region, " + IO + ":load_tagging_region")])
prop("C11", "A subdomain holds exactly the cells inside its bounds, in order",
     "Selecting a bounding box from a global or regional grid returns exactly the cells whose centre lies within the bounds, bounds included, with all values kept at their own coordinates. If the box crosses the antimeridian, the columns are in a contiguous west-to-east order without a gap inside; latitudes stay in their order. A tracking run with a subdomain gives the result of a run on input that only holds that subdomain.",
     ["inputs", "configurations"],
     "all boxes over bounds on, between and outside grid lines, on grids with different origins and resolutions",
     "Two tests take one box each, without any cell on a rolled bound.",
     [IO], [("selection and rolling", IO + ":select_subdomain")])
prop("C12", "Cell areas and sizes are those of the grid on the sphere",
     "Cell areas are the exact areas of the latitude-longitude rectangles on the sphere, so that they add up without gap or overlap to the area of the covered part, also at the poles, at any resolution and with different spacing in both directions. The side lengths are the metres per degree times the spacing (meridional) and times the spacing and the mean cosine of the cell's bounds (zonal), and neither depends on the order of latitudes or on where the antimeridian lies in the domain.",
     ["inputs", "configurations"],
     "all grids from alphabets of resolutions, extents, orders and antimeridian positions",
     "No test checks grid areas; the regression data have one square grid.",
     [GRID], [("areas and sides", GRID + ":get_grid_info")])
prop("C13", "Model-level preprocessing puts every level's water in the right layer once",
     "For any subset of ERA5 model levels, listed in any order, the pressure thickness of the selected levels adds up to the surface pressure; each level's water (humidity times thickness over gravity) and its transport by the level's wind count in exactly one layer: the lower one for level numbers above the configured boundary, else the upper one. With total column water available both storages and all transports are scaled so that the column sum equals it; fields are returned in the orientation of the input.",
     ["inputs", "configurations"],
     "all subsets of a level alphabet, all layer boundaries, profiles of humidity and wind, surface pressures, with and without total column water",
     "The regression test compares one hour range of one case with stored output of the same code.",
     [PRE, ERA5], [("level thickness", ERA5 + ":get_edges, get_dp_modellevels"), ("two-layer integration", PRE + ":preprocess")])
prop("C14", "Pressure-level preprocessing integrates the column above the surface",
     "For pressure-level data the storages and transports are sums over the layers between neighbouring pressures, from the top of the atmosphere (no humidity, wind of the highest level) to the surface values, of the mean humidity (times the mean wind) of the layer's two edges, split exactly at the configured boundary pressure; levels below the surface contribute nothing. Exactly the configured levels are used, or all that every variable has; their order does not matter, and the sum of both layers does not exceed the column.",
     ["inputs", "configurations"],
     "all orders of the levels, all positions of surface pressure relative to levels and layer boundary, profiles of humidity and wind",
     "The regression test compares one case, with one level order, with stored output of the same code.",
     [PL, PRE, PU], [("extension of the column", PL + ":extend_pressurelevels"), ("midpoints and thickness", PL + ":interp_dp_midpoints"), ("surface mask", PL + ":mask_below_surface_data")])
prop("C15", "Precipitation and evaporation keep sign, units and net water flux",
     "Preprocessed precipitation and evaporation are never negative, have units of kg per square metre and second, and their difference equals the net surface flux of the input: non-negative precipitation minus evaporation, where condensation counts as precipitation. This holds for accumulated ERA5 and ARCO-ERA5 input at every input frequency and for CMIP latent heat flux and precipitation, whose two 3-hourly values are averaged onto the 6-hourly time they precede.",
     ["inputs", "configurations"],
     "all sign combinations of precipitation and evaporation, all input frequencies of an alphabet, all three data sources",
     "Only ERA5 is preprocessed in tests, for one region at one frequency.",
     [ERA5, CMIP, ARCO, PU], [("sign convention", ERA5 + ":preprocess_precip_and_evap, " + CMIP + ":get_input_data, " + ARCO + ":get_input_data"), ("accumulation to flux", PU + ":accumulation_to_flux"), ("3-hourly averaging", CMIP + ":resample_3hr_var")])
prop("C16", "Preprocessing stores every input time once, in the file of its day",
     "Preprocessing a period writes one file per day that holds every input time of that day within the period, first and last included, exactly once and in order, with the same values as if that time were processed alone. This does not depend on the calendar, the input frequency, the time of day at which the period starts, earlier files of the same name, or whether and in which interleaving days are processed in parallel.",
     ["schedules", "histories", "configurations"],
     "all interleavings of the write steps of the day tasks, all periods and frequencies from alphabets, repeated runs over existing files",
     "Tests preprocess one day sequentially.",
     [PRE, APP], [("dates and grouping", PRE + ":get_input_dates, group_timestamps_by_day"), ("write then append", PRE + ":preprocess, " + APP + ":append_to_netcdf"), ("worker pool", PRE + ":parallel_preprocess")])
prop("C17", "Preprocessed longitudes run from -180 to 180 with values in place",
     "Whatever longitude convention and origin the input grid has, preprocessed longitudes lie in [-180, 180], are increasing, and every value stays with its own meridian; grids already within -180 (included) to 180 (excluded) are unchanged. The stored latitude and longitude bounds enclose each cell centre by half the grid spacing.",
     ["inputs"],
     "all grids from alphabets of resolutions, origins and extents in both conventions",
     "Tests use one regional grid that needs no shift.",
     [PRE, PU], [("longitude shift", PRE + ":shift_longitude"), ("bounds", PU + ":add_bounds")])
prop("C18", "A configuration is accepted only if valid, and survives a round trip",
     "A configuration whose dates are out of order, whose calendar, direction or level type is unknown, or whose region is no valid box, or with a setting of the wrong type, is rejected with an error, both when it is read and when a single setting is changed; every valid one is accepted with the values given, where folders starting with ~ denote the home directory. Writing a configuration to a file and reading it back gives the same configuration.",
     ["configurations", "histories"],
     "all single and pairwise settings from alphabets of valid and invalid values, all sequences of assignments up to a depth",
     "Tests sample a few invalid values.",
     [CFG], [("validators", CFG + ":Config, validate_region"), ("export", CFG + ":to_file, to_string")])
prop("C19", "Dates mean the same in every calendar",
     "A date in the configuration denotes exactly that date and time in the configured calendar, dates that do not exist in it are rejected, and rounding to a frequency down, up or to nearest gives the multiple of the frequency counted from midnight. A run over days that several calendars share gives the same values on each of them, and leap days are tracked exactly where the calendar has them. Input data on another calendar than the configured one gives the values of the same dates or an error, for CMIP data also a warning, and none if the calendars are the same under two names.",
     ["configurations", "inputs"],
     "all calendars (and pairs of calendars of data and configuration), all days around the ends of February and the year, all times of a grid, all rounding frequencies of an alphabet",
     "Tests only use the standard calendar in one month.",
     [CAL, CFG], [("parsing", CAL + ":cftime_from_iso, subclass_cftime"), ("rounding", CAL + ":round_cftime")])
prop("C20", "Spurious read failures are retried, real ones are reported",
     "Reading input that fails with the spurious index error of remote servers is retried with growing waits until it succeeds, at most eight times, and then gives the same data as an undisturbed read; after the last retry the error is raised. Any other error is raised at once without retrying, and no failed read leaves wrong data behind for later reads.",
     ["fault_sequences"],
     "all fault sequences up to beyond the retry limit, each fault an index error, another error, or success",
     "No test makes a read fail.",
     [IO], [("retry loop", IO + ":read_or_retry"), ("slice cache", IO + ":_load_slice_with_cache")])
prop("C21", "Downloads store what was published or fail, and never overwrite",
     "Downloading an example case puts every file of the catalogue and of the file list, complete and under its own name, in a new directory; if that directory exists nothing is changed and an error is raised. A failing or refused response at any request is raised as an error and its body is never stored as data. A DOI is accepted with or without resolver and split at its first slash, identifiers of other providers and malformed ones are rejected before anything is created or requested.",
     ["fault_sequences", "inputs", "histories"],
     "every request of the download protocol failing in every way of an alphabet, all DOI strings over an alphabet, existing and new targets",
     "Tests parse a few DOIs; the only test of the protocol needs the network.",
     [DL], [("protocol", DL + ":download_from_4tu, download"), ("DOI parsing", DL + ":parse_doi, get_4tu_id"), ("no overwrite", DL + ":create_target_directory")])
prop("C22", "Frequency spellings are equivalent and work everywhere",
     "Upper and lower case, and deprecated and current spellings (d/D, h/H, min/T, s/S) of a fixed frequency, with or without a number, configure the same interval; frequencies that are already valid keep their meaning. Preprocessing and tracking give identical results for all spellings of the same interval.",
     ["configurations"],
     "all spellings of an alphabet of frequencies in input and output frequency, both directions",
     "Tests check the string mapping for a list of names, not that the result can be used.",
     [CAL, IO, PU], [("normalisation", CAL + ":fix_deprecated_frequency"), ("use", IO + ":add_time_bounds, " + PU + ":accumulation_to_flux")])
prop("C23", "Progress reports and stability warnings describe the run truthfully",
     "At every output the run reports the tracked, remaining, lost, gained and boundary water as percentages of the water tagged so far, accumulated over the whole run, and a closure of 100%. A stability warning is issued, and the correction written to the debug folder, exactly when the strongest correction of the meridional fluxes is more than 10% stronger than the strongest warned about before in the run, or the corrected part of the grid exceeds 5% and the largest part warned about before by 10%.",
     ["histories", "inputs"],
     "all sequences of correction strengths and extents over alphabets up to a depth; all runs of the weather alphabets",
     "Nothing checks reports or warnings.",
     [PROF], [("totals", PROF + ":ProgressTracker.store_intermediate_states, print_progress"), ("warning state", PROF + ":ProgressTracker.track_stability_correction")],
     [("previous warning", "strongest correction and largest area warned about", PROF + ":ProgressTracker")])
prop("C24", "Figures show the sums of exactly the configured data",
     "The input figure shows the precipitation (backward) or evaporation (forward) of the tagging period, both ends included, in the tagging region, accumulated with the input frequency. The output figure shows the sum of tracked evaporation or precipitation over the output files of the run, all of which must exist.",
     ["configurations", "inputs"],
     "all tagging windows, regions, directions, frequencies and output periods from alphabets",
     "Tests compare two output figures as images, and fail where the plotting library differs.",
     [VIZ], [("input sum", VIZ + ":_plot_input"), ("output sum", VIZ + ":_plot_output")])
prop("C25", "Every command does its own job and records its configuration",
     "Each command line command runs the operation of its name for the given configuration and no other: tracking in the configured direction, preprocessing from the named source, the named figure, or the named download; the removed commands and unknown or missing arguments fail. Tracking, preprocessing and figure commands leave an identical copy of the configuration file and a log file in the folder they write to; the log file holds all messages, the terminal shows those of level info and above, with --debug all. A failure of the operation is a failure of the command.",
     ["configurations"],
     "all commands with all directions, options and argument errors of an alphabet",
     "Tests invoke four commands with one configuration each.",
     [CLI], [("commands", CLI)])
prop("C26", "Invalid input is rejected before anything is written for it",
     "Preprocessing stops with an error if at any time step the input lacks a required variable, dimension or configured level, has a variable with other dimensions than required, or contains a missing value in any variable at any position; nothing is stored for that time step. Valid input is never rejected.",
     ["inputs", "fault_sequences"],
     "every single fault of an alphabet in every variable at every position and time step, both level types",
     "No test feeds invalid input.",
     [IV, PRE], [("validation", IV + ":validate_input"), ("before writing", PRE + ":get_input_data")])
prop("C27", "Runs in one process do not influence each other",
     "The outputs of a run depend only on its configuration and input data: after any sequence of other runs in the same process (other directions, domains, data folders, time steps, failed runs, input files replaced between runs) a run gives exactly the outputs it gives in a fresh process, and it never changes its input files or the outputs of other runs.",
     ["histories"],
     "all sequences up to a depth over an alphabet of different runs",
     "Each test starts its runs in a fixed order.",
     [IO, BACK, FORW], [("cache keys", IO + ":_load_slice_with_cache"), ("copies", IO + ":load_slice")])
prop("C28", "A tracking run computes the documented two-layer accounting",
     "Every field of every output file of a forward or backward run equals, up to single precision, the result of stepping the documented scheme: fluxes interpolated to mid-step and limited for stability, upwind transport of the tracked fraction with the wind (against it in backward runs), vertical exchange, precipitation taken from both layers in proportion to their water, evaporation from or to the lower layer, removal at open edges, exchange of overshoot between the layers, and reporting of what still does not fit as losses or gains.",
     ["inputs", "histories", "configurations"],
     "all combinations of the weather, storage, rain, grid, time step and mixing alphabets, both directions, open and periodic domains",
     REG + "they cannot tell a right change from a wrong one outside that data.",
     [BACK, FORW, CORE, IO], [("run loop", BACK + ":run_experiment, " + FORW + ":run_experiment"), ("state update", BACK + ":backtrack, " + FORW + ":forwardtrack")], TR, ["output files"])
prop("C29", "A shapefile region weighs every cell with its covered fraction",
     "A tagging region given as a shapefile gives every grid cell the fraction of its longitude-latitude rectangle that the first polygon covers, also on the poles and the antimeridian: 1 for cells inside, 0 for cells outside, in between for cells on the edge, so that the weighted areas add up to the area of the polygon within the grid. The mask is oriented like the data for every order of latitudes, and a run with the shapefile tags the same water as with the equivalent mask file.",
     ["inputs", "configurations"],
     "all rectangles and triangles over a lattice of corners on, between and outside grid lines, grids of different resolution and order",
     "One test compares one polygon with stored output.",
     [SHP, IO], [("mask", SHP + ":create_mask"), ("loading", IO + ":load_tagging_region")])
prop("C30", "Output files describe themselves correctly",
     "Every output file has one time in the configured calendar, time bounds that enclose exactly the interval over which its fields were accumulated, the latitudes and longitudes of the tracked domain with bounds of half a cell around them, and the units and names of each field. It embeds the configuration of the run, which read back equals the one used, and passes on the source and history of the preprocessed data.",
     ["configurations"],
     "all combinations of direction, calendar, period, output frequency, domain and region kind from alphabets",
     "Regression tests compare values of the fields, not labels of time intervals or metadata.",
     [IO, PU], [("labels", IO + ":write_output, add_time_bounds, get_main_attrs"), ("bounds", PU + ":add_bounds")])
prop("C31", "Attribution is additive over regions and periods",
     "As long as no overshoot, gain or loss correction is needed, tracking water tagged in a region gives the sum of what tracking its parts gives, for any division of the region into cells sets or of the tagging period into sub-periods, field by field and at every output; scaling the region weights scales all tracked fields. In particular the contributions of a partition of the domain are complete and never counted twice.",
     ["configurations", "histories"],
     "all divisions of a region and of a period over small alphabets, all weather symbols, both directions",
     "Tests run one region and one period.",
     [BACK, FORW, CORE], [("linear update", BACK + ":backtrack, " + FORW + ":forwardtrack")], TR)

prop("C32", "Preprocessing depends on what input says, not on how it is laid out",
     "Preprocessed fields depend only on the values the input files give for each variable, time, level and place: not on the order of the dimensions or levels, the direction of the latitudes, the storage type, packing, compression, byte order or format of the files, the units of their times, the old or new names of their coordinates, additional coordinates or (in CMIP and ARCO data) variables, each for any one or all of the variables. The fields are always stored with dimensions time, latitude and longitude in this order.",
     ["inputs", "configurations"],
     "for each source and level type, all layouts of an alphabet (all orders of dimensions and levels, storage types, formats, names, extras) of each variable and of all together",
     "Tests read files of one layout.",
     [PRE, ERA5, CMIP, ARCO, PL], [("loading", ERA5 + ":load_data, " + CMIP + ":load_cmip_var, " + ARCO + ":get_input_data"), ("column integration", PL + ":extend_pressurelevels, " + PRE + ":preprocess")], None, ["preprocessed files"])
prop("C33", "Preprocessed files describe themselves correctly",
     "Every preprocessed file holds, besides the eight fields with their units and names (which of eastward or northward and upper or lower), exactly the input times of its day in the calendar of the configuration, the latitudes and longitudes of the grid with bounds half a cell to both sides and their units, and for ERA5 and ARCO-ERA5 the title, source, references, conventions and program version. This holds for every time of a day, first or appended, whether days are processed in sequence, in parallel or once more over existing files.",
     ["configurations", "inputs"],
     "all combinations of source, calendar, period, grid and processing mode from alphabets",
     "Tests compare values of the fields of one file.",
     [PRE, PU, APP, S + "reference/variables.py"], [("labels", PRE + ":preprocess"), ("bounds", PU + ":add_bounds"), ("append", APP + ":append_to_netcdf")], None, ["preprocessed files"])
prop("C34", "Designed tagging regions mark exactly the intended cells",
     "A region file made by the region design functions holds 1 in every cell of the reference file's grid whose centre lies in the region and 0 in every other cell. Around a point, or around each point of a track at its time, the region is every cell within the radius in both latitude and longitude, whatever the longitude convention and across the antimeridian. For several named regions or shapefile regions it is their union; their numbers mean the published regions, or the regions of the file, whether or not they overlap the grid. Wrong names and numbers are rejected. A tracking run with the file tags exactly the water of those cells.",
     ["inputs", "configurations"],
     "all centres and radii of alphabets on several grids, all tracks up to a length, all regions and pairs of regions of the offline sources, all ordered selections from a shapefile, all wrong arguments of an alphabet",
     "No test calls these functions.",
     [TR_, IO], [("points and tracks", TR_ + ":mask_around_point, mask_around_track"), ("named regions", TR_ + ":mask_with_regionmask"), ("shapefile regions", TR_ + ":mask_with_shapefile")], None, ["region files"])

prop("C35", "Remote preprocessed data gives the same results as local files",
     "A tracking run whose preprocessed data folder is a URL (OPeNDAP) gives exactly the outputs, tagging regions, restarts, figures and stored settings that it gives on local copies of the files, whatever the form of the URL. It asks only for the days it needs, creates no local folder for the URL and does not reuse data that changed on the server since an earlier run. If requests fail, once or lastingly, the run fails or gives the same results; every output present is correct and the next run is undisturbed.",
     ["fault_sequences", "configurations", "histories"],
     "all combinations of direction, region kind, subdomain, calendar, URL form; all restarts; every request of a run failing in each of three ways, once or lastingly",
     "Tests have no network; a run needs a server, and the failures are those of single requests.",
     [IO, S + "config.py", S + "analysis/visualization.py"], [("reading", IO + ":input_path, read_or_retry, load_data"), ("region", IO + ":load_tagging_region"), ("URLs", S + "config.py:Config")], None, ["output files", "requests to the server"])
prop("C36", "What a killed or failing run leaves is never mistaken for a result",
     "If a tracking run is killed at any moment, or any of its file operations fails (full disk, input/output error), every file with the name of an output is complete and holds the values of the undisturbed run (or still those of an earlier run it would have replaced), a failing run does not report success, running again gives the undisturbed results, and restarting from the last output continues the same run. If preprocessing is killed or fails, reading any time from the files left gives the right values or an error, and preprocessing again gives the undisturbed files.",
     ["crash_points", "fault_sequences", "histories"],
     "every change to a file (open, each write, truncate, rename, remove) of a run x killed before it, torn in half, failing once, failing from then on x empty folder, over earlier results, restart",
     "Tests never interrupt a run; the harm depends on which single write was the last.",
     [IO, PRE, APP], [("output", IO + ":write_output"), ("daily files", PRE + ":preprocess"), ("append", APP + ":append_to_netcdf")], None, ["files left behind"])
prop("C37", "Runs at the same time do not disturb each other",
     "Two commands that run at the same time with different outputs (tracking in both directions, over different periods or regions, preprocessing of different days, tracking while later days are preprocessed, a restarted run, drawing earlier results while others are written) both succeed and leave exactly the files that each leaves alone, however their file operations interleave, also if they share the output folder and neither it nor its parents exist when they start. A debug file that both write is that of one of them, never a mixture.",
     ["schedules", "configurations"],
     "pairs of commands of an alphabet x all schedules of their conflicting file operations up to a number of unforced switches",
     "Tests run one thing at a time; the harm needs a switch between two particular file operations.",
     [IO, S + "cli.py", S + "config.py", S + "utils/profiling.py", PRE], [("folders", S + "config.py:_make_dir"), ("outputs", IO + ":write_output, load_tagging_region"), ("debug files", S + "utils/profiling.py:track_stability_correction"), ("daily files", PRE + ":preprocess")], None, ["files left behind", "exit status"])
prop("C38", "Download scripts fetch what preprocessing needs, only complete files",
     "For every day of its period an ERA5 download script fetches one file per needed variable, with exactly the requested hours, levels and area, under the name preprocessing looks for, and preprocessing them gives the fluxes and storages of the data served. If requests fail or the script is killed, once or lastingly, no incomplete file stands under such a name, older files are unharmed, the other files are still fetched, and running the script again fetches exactly what is missing.",
     ["fault_sequences", "crash_points", "configurations"],
     "both scripts x every request failing in every way, once or lastingly, in an empty folder, over older files, over some of the files; all settings of the alphabets",
     "No test runs the scripts: they need an account, a network and hours.",
     ["scripts/download_era5_ml.py", "scripts/download_era5_pl.py", ERA5], [("requests", "scripts/download_era5_ml.py, scripts/download_era5_pl.py"), ("names", ERA5 + ":load_data")], None, ["files left behind", "requests to the service"])
prop("C39", "The data checks report exactly what is wrong with preprocessed data",
     "Checking preprocessed data with check_input gives no warning for sound data of any grid, period, calendar and storage type, in particular for what preprocessing makes of every source, and otherwise at least one warning for every variable with a missing or wrong unit, a missing dimension or a value outside of its plausible range, anywhere, and for every coordinate that is missing, not uniform, doubled or in the wrong order. It names what is wrong, warns about nothing else, and does not fail.",
     ["inputs"],
     "all grids, periods, calendars and storage types of the alphabets; every fault of an alphabet in every variable and coordinate at several places, and pairs of faults",
     "No test calls these checks.",
     [S + "analysis/checks.py", PRE], [("checks", S + "analysis/checks.py:check_input, check_coords, check_range, check_units"), ("units", PRE + ":preprocess")], None, ["warnings"])

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
    print(len(P))
