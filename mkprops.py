"""Writes properties.jsonl (kept as a script so that the records stay readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})


F = "pyowc/data/fetchers.py"
W = "pyowc/data/wrangling.py"
S = "pyowc/core/stats.py"
N = "pyowc/core/finders.py"
C = "pyowc/calibration.py"
H = "pyowc/helper.py"
U = "pyowc/utilities.py"
G = "pyowc/configuration.py"
PL = "pyowc/plot/plots.py"
DB = "pyowc/plot/dashboard.py"

prop("C01", "Bathymetry windows are exactly what the elevation file stores",
     "For any requested longitude/latitude window, including windows that cross Greenwich, the 360-degree mark or a pole, the bathymetry reader returns the 5-arcminute nodes covering the window (longitudes increasing along rows and labelled in the frame of the request, latitudes decreasing down columns), and the elevation it gives at every node is the 16-bit value the global elevation file stores for that node, whatever was read before. "
     "The nodes reach at least to every edge of the window that lies on the globe.",
     ["inputs", "histories"], "every window up to several tens of degrees, any sign convention of longitude in [-180, 380], any latitude range within the globe, any contents of the elevation file",
     "The existing tests mock the file or are skipped because the 18 MB elevation file is absent; they look at one window, never at seams or poles.",
     [F], [("get_topo_grid decodes offsets into the binary grid", F)], ["return value of the bathymetry reader", "contents of the elevation file"])

prop("C02", "The 5x5 WMO boxes around a float are the right 25, none twice",
     "For every float position, the boxes selected for the climatology are exactly the 10-degree boxes that contain the points offset from the position by -20, -10, 0, 10 and 20 degrees in longitude (modulo 360) and in latitude, each with the data flags listed for it, in a fixed order that starts with the box holding the float. "
     "Offsets that fall beyond a pole yield blank (NaN) rows instead of any box, no box is ever listed twice, and an unknown position yields only blank rows.",
     ["inputs"], "every longitude in [0, 360], every latitude in [-90, 90] and NaN (positions within 0.02 degrees of a box edge may resolve to either side)",
     "Tests sample a handful of positions; the seam at 0/360 and the polar rows are not enumerated.",
     [N], [("find_25boxes", N), ("nearest_neighbour", N)], ["returned 25x4 matrix", "WMO box table"])

prop("C03", "Historical casts are retrieved completely, unaltered and aligned",
     "The position/date listing of the climatology contains every cast of every enabled data type of every selected box once, in box order then CTD, bottle, Argo order, with its own latitude, longitude (0-360, extended past 360 when the region straddles the meridian) and decimal date. "
     "Fetching a set of those casts by index returns exactly those casts in listing order, each with its own position and date and with its stored salinity, potential temperature and pressure levels in order down to the deepest float pressure plus the configured margin, missing values marked in all three variables together; only casts left without any usable level are dropped. "
     "Missing files, disabled types or an unusable cast never shift, truncate or hide the others, and what is returned is what the files hold at that time, also after files read before were replaced or another directory was entered.",
     ["inputs", "configurations", "histories"], "every set of boxes, flags, file sizes (including single-cast files), NaN patterns, index subsets and depth limits",
     "Tests use two boxes of real data and compare shapes or means, never the identity of each cast.",
     [F], [("get_region_hist_locations / get_region_data iterate the same boxes in the same order", F), ("lru_cache readers", F)],
     ["return values of the two fetchers", "climatology .mat files"], state=[("cached file contents", "shared arrays that must never be edited in place", F)])

prop("C04", "A float is never compared with its own profiles, whatever ran before",
     "When the climatology is fetched for a float, no profile that the Argo reference data attribute to that float is used, and every reference profile of every other float is. "
     "This holds independently of which floats, boxes or casts were fetched earlier in the same process: repeating a fetch gives the same result, and one float's exclusion never affects another's.",
     ["inputs", "histories"], "every assignment of source labels to reference profiles (distinct 7-digit float numbers), every order and repetition of fetches for several floats",
     "Tests check one float against one file, in a fresh cache.",
     [F], [("read_mat_argo keyed by file and float name", F)], ["casts returned by the fetchers", "source labels in the Argo .mat files"])

prop("C05", "Calendar dates become the right decimal years, and bad dates never pass",
     "A date given as YYYYMMDD with optional hour and minute digits (seconds ignored), as integer, float or text number, becomes the year plus the elapsed fraction of a 365-day year, so that valid dates keep their chronological order and spacing. "
     "An element that is not a valid calendar date (month outside 1-12, day outside 1-31, malformed) gives zero without affecting any other element; the output always has one entry per input, in order.",
     ["inputs"], "every valid date 1900-2100 at every resolution of the format, mixed with malformed ones; 29 February maps to the same value as 1 March (365-day calendar)",
     "Tests sample a few dates.",
     [U], [("change_dates", U), ("cal2dec", U)], ["return values"])

prop("C06", "Longitudes stay equivalent modulo 360 and contiguous across Greenwich",
     "Wrapping longitudes never changes a position except by whole turns, makes negative longitudes positive, and moves values up to 40 degrees by one turn exactly when some value lies at or beyond 320, so that any region narrower than 40 degrees has no artificial 360-degree jump. "
     "Values that need no change are untouched and order, length and missing values are preserved.",
     ["inputs"], "all arrays of longitudes in [-180, 360] with any mixture of sides and NaN",
     "Tests check three hand-made arrays.",
     [U], [("wrap_longitude", U)], ["return value"])

prop("C07", "Selection of historical casts: in the ellipse, distinct, capped, best-correlated",
     "The casts selected for mapping are distinct indices into the historical list and all lie within three large length scales of the float (potential vorticity included when enabled); if no more than the allowed number lie there all of them are selected, otherwise exactly the allowed number. "
     "When capped, about a third is drawn pseudo-randomly, the rest of the first two thirds are the casts best correlated on the large scales among those not drawn, and the last third are the best correlated on the small scales among those still left. "
     "The selection is reproducible: same inputs give the same casts regardless of the global random state or of earlier calls.",
     ["inputs", "histories"], "any number and geometry of casts, any scales, any cap of one or more, with and without potential vorticity",
     "Tests count the result for random data or compare one stored selection.",
     [N, U], [("find_besthist", N), ("find_ellipse", N), ("spatial_correlation", U), ("potential_vorticity", U)], ["returned indices"])

prop("C08", "Objective mapping is the optimal (Bretherton) estimate, with honest errors",
     "For any set of data, positions and scales, mapping returns the generalised-least-squares mean plus the optimally interpolated anomaly both at the target position and at the data positions, and the error returned with each is the theoretical error standard deviation including the uncertainty of the mean. "
     "Hence adding a constant to the data shifts the map by it and leaves the errors, scaling data and (squared) variances scales both, reordering data changes nothing, far from all data the map tends to the mean, and with vanishing noise the data are reproduced.",
     ["inputs"], "any distinct data positions (up to hundreds), latitude, longitude, time and potential-vorticity scales, signal variance > 0, noise variance > 0",
     "Tests compare a three-point example with stored numbers.",
     [W, S], [("map_data_grid", W), ("covar_xyt_pv", S)], ["return values"])

prop("C09", "Climatology is interpolated to the float's temperature, nearest in pressure",
     "For each float level and each historical cast, the interpolated salinity and pressure are linear interpolations, with one common weight, between two successive usable levels of that cast whose potential temperatures bracket the float's; among several such crossings the one whose pressure is closest to the float's is used. "
     "The result is missing exactly when the float level is incomplete or the cast never crosses the float's temperature, unusable levels are skipped, inputs are not modified, and the answer for one cast does not depend on which other casts are present.",
     ["inputs"], "any profiles with inversions, exact hits, gaps, NaN or infinite levels, any number of casts and levels",
     "Tests compare one stored example and a few edge cases.",
     [W], [("interp_climatology", W)], ["return values"])

prop("C10", "Signal and noise variances are computed from the right pairs",
     "The signal variance of a set of salinities is their population variance ignoring missing values. "
     "The noise variance is half the mean square difference between each datum and the datum at the nearest different position (first of equals), zero when all positions coincide, and neither changes when a constant is added to the data, while both scale with its square.",
     ["inputs"], "any vectors of salinities and positions including duplicated positions, ties, and missing salinities",
     "Tests use three points.",
     [S], [("signal_variance", S), ("noise_variance", S)], ["return values"])

prop("C11", "The Subantarctic-Front filter keeps only casts on the float's side",
     "North of 30S, the frontal filter returns the historical data unchanged. "
     "South of it, the float and each cast are classified from their in-situ temperature at 300 dbar (above 5 C north, below 3 C south, otherwise or if unknown undecided; a float between these limits is then tested against the typical-profile envelopes); a float classified on one side keeps exactly the casts classified on the same side, an undecided float keeps all, and every variable of a kept cast, including its ocean depth, stays with it and in order.",
     ["inputs", "configurations"], "any float latitude, temperature profile (gaps, repeated pressures, profiles not reaching 300 dbar) and any historical set",
     "Tests assert one stored selection.",
     [F], [("frontal_constraint_saf", F)], ["returned dictionary"])

prop("C12", "Mapped salinity of every float level is the two-scale objective estimate",
     "For every profile and level of a float, the saved mapped salinity, its error, signal, noise and potential temperature are those of the documented procedure (5x5 boxes, own float excluded, best casts, optional front filter, interpolation to the float's theta, pressure window, 3-sigma outliers removed, large-scale map then small-scale map of the residual with longitude and latitude scales on their own axes), and levels above the exclusion pressure, incomplete, or with five or fewer reference points or all of them at one place are left unmapped, as are profiles without a position or without reference data. "
     "Saved mapped salinities lie between 30 and 40, columns are in profile order with the settings used, and the saved reference positions are those actually used, none within 1/60 degree of another in both coordinates. "
     "Shifting the whole world (float, climatology, bathymetry, boxes) by a multiple of 10 degrees of longitude changes nothing but the longitudes.",
     ["inputs", "configurations"], "any float trajectory (including across Greenwich), any climatology, bathymetry and mapping configuration, with gaps, missing positions and incomplete profiles",
     "No end-to-end mapping test runs: the only one is skipped without the elevation file, and it covers one float.",
     [C, H, F, W, N, S], [("update_salinity_mapping", C), ("mapping helpers", H)], ["mapped .mat file"])

prop("C13", "Mapping is incremental: old results are kept, new equals from-scratch",
     "Mapping a float in any number of steps, as profiles arrive, leaves the same mapped file as mapping it once with all profiles: already mapped profiles are never recomputed nor altered, every source profile appears exactly once with its own values and settings, in profile order. "
     "Mapping again without new profiles changes nothing, and a file written by the older software (without front flags) is accepted.",
     ["histories"], "every order in which profiles become available, any number of steps, also when later profiles have more levels or cannot be mapped",
     "Tests never map a float twice.",
     [C, H], [("load_varibales_from_file and the missing-profile loop", H), ("sorting before save", C)], ["sequence of mapped .mat files"])

prop("C14", "The piecewise-linear calibration fit is the best admissible model",
     "Given profile-wise data and errors, the fit is exactly the weighted least-squares offset, line or continuous piecewise line of the model chosen by the small-sample information criterion among those allowed by the data's effective degrees of freedom and the requested maximum number of break points; fitted values are returned per profile in profile order with the slope of the segment each profile is on and non-negative finite errors. "
     "Missing points and the order in which points are given do not matter, prescribed break points are honoured exactly, and a series without any valid point gives missing results rather than an error.",
     ["inputs", "configurations"], "any profile numbers, number of levels, gaps, error sizes, covariance matrices and maximum number of breaks from -1 to 4, or a full set of prescribed breaks (fewer prescribed than the maximum is a known finding, as are the per-profile residual statistics)",
     "Tests pin one float's numbers for a few settings.",
     [S], [("fit_cond", S), ("nonlinear break search", S)], ["return tuple"])

prop("C15", "Piecewise line fitting at given breaks is a weighted least-squares optimum",
     "For any data sorted by abscissa, weights and break points, the returned coefficients minimise the sum of squared residuals under the weight matrix over all continuous piecewise-linear functions with those breaks, and the returned residuals are the data minus that function. "
     "Points are attributed to the interval whose start is at or before them and whose end is after them; mismatched or degenerate input is reported by zero coefficients and unfitted residuals rather than wrong numbers.",
     ["inputs"], "any number of points and breaks, repeated abscissae, points on breaks, arbitrary positive weights or none",
     "Tests check two small examples.",
     [S, U], [("brk_pt_fit", S), ("sorter", U)], ["return values"])

prop("C16", "The ten theta levels are the least-variable admissible ones",
     "The levels selected for calibration are distinct candidate levels (profile-averaged potential temperature on a regular pressure grid over the usable data) whose salinity variance across profiles is smallest, in increasing order of variance, among candidates sampled by the required fraction of profiles; pressure, temperature and per-profile level index are reported consistently for each. "
     "Only data that were mapped and inside the user's pressure and temperature bounds are used, each reported index points at the profile's usable level nearest to the theta level, and a series with no usable range selects nothing instead of failing.",
     ["inputs", "configurations"], "any profiles (gaps, inversions, single usable levels), any combination of upper, lower, inside-band and outside-band bounds, any coverage fraction",
     "Tests compare a stored example for some bounds.",
     [N], [("find_10thetas", N)], ["return tuple"])

prop("C17", "The calibration-series file tracks the float's profiles",
     "Preparing a calibration leaves a settings file with exactly one series number per profile, in profile order: defaults for a new float, the operator's own assignment and settings for profiles already listed, the number of the preceding profile for newly arrived ones, and zero for every profile with no valid salinity, temperature or pressure; profiles no longer in the source are left out. "
     "All other settings an operator stored (breaks, maximum breaks, theta and pressure bounds, coverage) are preserved, except a bound given more than one value, which is dropped; repeating the preparation changes nothing.",
     ["inputs", "histories"], "any source file, any existing settings file with or without the coverage fraction, any arrival of later profiles",
     "Tests run the default path once.",
     [G], [("set_calseries", G)], ["calseries .mat file"])

prop("C18", "Calibrated salinity is exactly the fitted conductivity correction",
     "For every profile in a calibration series, the saved calibrated conductivity is the float's potential conductivity times that profile's fitted factor, the calibrated salinity (and its error) is that conductivity (perturbed by the factor's error) converted back at the float's potential temperature, and the factor is the fit of that series' own mapped-to-measured conductivity ratios on its own theta levels; profiles outside every series stay missing. "
     "Mapped and float data are matched by profile number (profiles may have left the source file since they were mapped), series do not influence one another, every profile of a series gets a result wherever it has data, bad profiles are skipped, and a settings file inconsistent with the series gives a file of missing values rather than a wrong calibration. "
     "A float built from its climatology with a known conductivity drift is brought back to it within the stated uncertainty.",
     ["inputs", "configurations"], "any float, mapped file and settings: one or several series, bad profiles, unmapped series, theta and pressure bounds, maximum breaks -1 to 4, full prescribed breaks",
     "The only end-to-end calibration tests are skipped without the elevation file.",
     [C, S, N], [("calc_piecewisefit", C)], ["calibration .mat file"])

prop("C19", "Error covariances between float levels are correct and well formed",
     "The covariance matrix between float levels has one block per pair of profiles: the vertical correlation within the first profile (one on the diagonal, Gaussian in potential temperature with the documented water-mass scale looking up or down, one where a temperature is missing) times the horizontal correlation of the pair. "
     "The horizontal correlation is Gaussian in separation on the small scales (and in potential vorticity when enabled), symmetric, one for a profile with itself, within [0, 1], and decreasing with distance.",
     ["inputs", "configurations"], "any potential temperatures (also beyond the table of water masses) with gaps, any float track and depths, any scales, with and without potential vorticity",
     "Tests compare one stored matrix.",
     [S], [("build_cov", S), ("covarxy_pv", S)], ["return values"])

prop("C20", "Diagnostic plots show the data they are labelled with",
     "Running the diagnostics on a calibrated float writes every documented figure, in the configured directory and format, and the curves in them are the float's own: raw, mapped and calibrated salinity interpolated on each selected theta level per profile, correction factors and mean offsets with their errors against profile number, and float and reference positions that are equal modulo 360 degrees to those stored. "
     "Bounds set by the operator mask exactly the data out of bounds, unmapped or bad profiles leave gaps rather than stop the plots, and profiles that are still in the mapped file but no longer in the source file are left out.",
     ["inputs", "configurations"], "any calibrated float (gaps, inversions, bounds, several series), any plotting directory, format and number of levels",
     "Tests only check that a file is created for one float.",
     [PL, DB, "pyowc/plot/utils.py"], [("plot_diagnostics", DB), ("sal_var_plot", PL), ("cal_sal_curve_plot", PL), ("trajectory_plot", PL)], ["figures at the moment they are saved"])

prop("C21", "Inputs are read-only: only the output files named by the settings are written",
     "Running any step of the pipeline never creates, changes, moves or deletes any file except that step's own output for that float in the configured output directory, and never alters the configuration it is given. "
     "Source profiles, climatology, constants and the results of other floats or other steps stay byte-identical, whichever float directory, prefixes and postfixes are configured, and each step finds the files the previous step wrote.",
     ["configurations", "histories"], "every step in every order, any float directory (root or nested), prefixes, postfixes, several floats",
     "Tests run in the default layout and never look at other files.",
     [C, G, DB, F, H], [("path construction in each step", C)], ["file-system audit events", "hashes of the data tree"])

prop("C22", "A float's results do not depend on what else is processed",
     "The mapped file, the calibration settings and the deterministic part of the calibration of a float are the same whether it is processed alone, after or before other floats in the same process, repeatedly, or in parallel with others in a process pool, and whatever the state of the global random generator. "
     "No failure while processing one float changes the results of another.",
     ["schedules", "histories"], "every order and interleaving of floats over shared climatology, in one process or a pool, including floats that fail",
     "Tests process a single float in isolation.",
     [C, F, S, N], [("module-level caches", F), ("module-level globals of the fit", S), ("seeded selection", N)], ["output files per schedule"],
     state=[("lru caches", "climatology shared between floats", F), ("A, breaks, nbr1, ubrk_g, xf, yf, w_i, xblim", "module globals of the fit", S)])

prop("C23", "The default configuration is complete, fresh and faithfully displayed",
     "Loading the configuration gives every documented parameter with its documented default, sorted by name, as a new object each time, so that changing one loaded configuration (including its list values) never changes another. "
     "The displayed configuration contains every parameter exactly once with its current value, whatever values a user sets, and displaying it changes nothing.",
     ["inputs", "histories"], "any sequence of loads and user modifications, any parameter values",
     "Tests check keys and types of one load.",
     [G], [("load", G), ("print_cfg", G)], ["returned dictionary", "returned text"])

prop("C24", "A failed run never damages results already saved",
     "If mapping, preparing or calibrating a float fails for any reason before its results are complete (missing or unreadable input, an error in any computation or read), the error reaches the caller and any earlier result file of this or any other float is left byte-identical, with no partial output in its place. "
     "Once the cause is removed, running the step again gives the same result as if the failure had never happened.",
     ["fault_sequences", "crash_points"], "a fault at any single read or computation the step makes, at any occurrence, repeated any number of times; faults during the final write itself are excluded",
     "Tests never inject faults.",
     [C, G, H], [("results are accumulated in memory and saved once at the end", C)], ["result files before and after the fault", "exception seen by the caller"])

prop("C25", "Ellipse, correlation and vorticity measures have the stated geometry",
     "The ellipse measure is below one exactly inside three length scales, the correlation distance is the sum of squared scaled separations in longitude, latitude and time, and both add the squared scaled relative difference in potential vorticity only when both vorticities are given. "
     "Potential vorticity is the planetary vorticity of the latitude over the depth, never exactly zero and without bound over no water (so that nothing lies inside an ellipse with it); all are symmetric in the two points and zero only where the points coincide.",
     ["inputs"], "any positions, scales, times, vorticities; any latitude and depth",
     "Tests check single values.",
     [N, U], [("find_ellipse", N), ("spatial_correlation", U), ("potential_vorticity", U)], ["return values"])

prop("C26", "Equivalent descriptions of the same data give the same results",
     "The saved mapping, settings and calibration of a float depend on the data and not on how they are written down: levels without data added to the float's or a cast's columns, other number types, orientations, orders or extra variables in the files, other types or order of the configuration's values, and other numbers of the climatology's boxes give the same results at the same levels (levels without data between others may only move the choice of calibration levels). "
     "Casts that may not be used (in boxes out of reach, outside three length scales, or of the float itself among Argo data) change nothing when added, the order and data type of the casts in use do not matter, and mapping only some of the profiles gives these the same mapping.",
     ["inputs"], "any float, climatology and configuration, any combination of equivalent descriptions",
     "Tests use one description of one float.",
     [C, F, N, W, H], [("update_salinity_mapping", C), ("calc_piecewisefit", C), ("get_region_data", F), ("get_region_hist_locations", F)], ["mapped, settings and calibration files"])

prop("C27", "Results have the symmetries of the method and depend on nothing else",
     "Turning float, climatology and bathymetry by a multiple of 10 degrees of longitude, mirroring them at the equator, moving all dates by whole years, making the climatology saltier by a constant, scaling its salinity contrast, renumbering the profiles in order, or multiplying the float's conductivity by a factor changes the saved results only as the method says: not at all, offset or scaled in step, or compensated by the calibration. "
     "The mapping of a level does not depend on the float's own salinity values, on whether other levels have salinity or are excluded by pressure, on in-situ temperatures, or on bathymetry, scales and settings that the configured method does not use.",
     ["inputs"], "any float, climatology and configuration, any such change",
     "Tests run one configuration at one place.",
     [C, F, N, W, S, H], [("update_salinity_mapping", C), ("map_data_grid", W), ("find_besthist", N), ("calc_piecewisefit", C)], ["mapped and calibration files"])

prop("C28", "A step leaves the process as it found it",
     "Mapping, preparing, calibrating or plotting a float, whether it succeeds or fails at any point, leaves the calling process as it was: error handling and printing of numbers, warning filters, plot style, backend and interactive state, working directory, environment, file-creation mask, signal handlers and timers, locale, standard streams, module path and Python's own random state are unchanged. "
     "No open file, thread, child process or temporary file remains, and running a step again and again does not keep growing the memory in use.",
     ["histories", "fault_sequences"], "any sequence of steps and failures, from any state of the process",
     "Tests look at results, not at the process.",
     [C, H, F, W, S, PL, DB], [("steps", C), ("plots and files", DB)], ["state of the process before and after each step"])

prop("C29", "The documented workflows do what their steps do one by one",
     "The start script, the notebook of the documentation, the profiling script and the public names of the package, run on a project directory in the default layout, complete for any number of floats, on computers of any number of processors, and produce the mapping, settings and calibration files which the steps called one by one with the documented settings produce, and a complete set of figures for each float. "
     "They write nothing else and leave source data and climatology as they were.",
     ["inputs", "histories"], "any number of floats in the documented default layout",
     "No test runs the scripts or the notebook.",
     [C, G, PL, DB], [("start_with_pycharm", "start_with_pycharm.py"), ("notebook", "docs/Tryit.ipynb"), ("public names", "pyowc/__init__.py")], ["files of the project directory, output and exit status of the workflow"])

prop("C30", "A float's files agree with one another throughout its life",
     "Whatever happens to a float over the years (profiles arriving in order or late, leaving, being corrected or going deeper, settings and climatology changing, the operator editing series, files being lost, steps failing, other floats processed in between), after every step the files hold what that history calls for: each profile's mapped column is that of a fresh mapping at the time it was first mapped, the series file holds each source profile with its flag, and the operator's settings survive. "
     "The calibration and its figures always follow from the present source, mapped and settings files alone, as if the float had no past, and a step that fails changes nothing.",
     ["histories"], "every sequence of operations on a float in which it is mapped and prepared before it is calibrated",
     "Tests never take a float through more than one step.",
     [C, H, G, DB], [("steps", C), ("load_varibales_from_file", H), ("set_calseries", G)], ["all files after each step of a history"])

prop("C31", "Poor data stop nothing and cost only themselves",
     "A profile with missing, constant, reversed, repeated or wild values, a single level, no position or no date, and a reference cast without usable levels, never stop the mapping, the preparation, the calibration or the figures of a float. "
     "The mapping of all other profiles, and of the levels that are in order, stays what it would be without the poor data, nothing is mapped or calibrated where an input is missing, and no infinite or out-of-range value is saved. "
     "The calibration of the other profiles is the one of the same float without its useless profiles (those without salinity, temperature, pressure, position or deep levels).",
     ["inputs"], "every choice of poor profiles, levels and casts in a float whose climatology covers it",
     "Tests use one clean float.",
     [C, H, G, DB], [("steps", C), ("get_region_data", F), ("find_10thetas", "pyowc/core/finders.py")], ["all files after each step"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
            assert len(p["title"]) <= 80, p["title"]
            n = p["statement"].count(". ") + 1
            assert n <= 3, (p["id"], n)
    print(len(P))
