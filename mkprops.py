"""Writes properties.jsonl (the single place where the property texts are kept)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                          "observe_at": observe or [], "hook_needed": None}})

p("P01", "The search region of a profile is the 5x5 block of WMO boxes around it",
  "For every profile position (longitude 0 to 360, any latitude) the boxes searched for reference data are exactly the 5x5 block of 10-degree WMO boxes centred on the box that holds the profile (a position on an edge belongs to the box to its north and east), wrapping round in longitude; each box comes once, with its own row of the box table (number and availability flags), and places beyond the poles are left empty (NaN). "
  "A profile with a missing longitude or latitude gets 25 empty rows. The box table is not modified.",
  ["inputs"], "all positions on the globe, including box edges, 0/360 and the poles, and all box tables",
  "The tests look at one position (57E, 59S) and one NaN pair; wrap-around, edges and polar rows are never visited.",
  ["pyowc/core/finders.py"], [("find_25boxes", "pyowc/core/finders.py"), ("nearest_neighbour", "pyowc/core/finders.py")],
  observe=["return value of find_25boxes"])

p("P02", "Reference casts are loaded completely, once, aligned, and without the float",
  "For any set of boxes and availability flags, the positions and dates listed are those of every cast of every enabled data type (CTD, bottle, Argo) whose file exists, in a fixed order, leaving out all Argo casts whose source names the float being analysed; disabled types, empty boxes and missing files contribute nothing, and finding no cast at all is reported as an error. "
  "Loading the data for a selection of those casts returns, for each selected cast exactly once, its own position, date and profile: the levels with a pressure not deeper than the float's deepest pressure plus the allowed pressure difference, in order, padded with NaN, a level missing any of salinity, temperature or pressure missing all three, and casts left with no data dropped together with their position and date. "
  "Repeating a load gives the same answer.",
  ["inputs", "configurations", "histories"], "all layouts of box files (including boxes with one cast, and ragged or NaN-padded profiles), flags, selections and repeated loads",
  "The tests load one shipped box per type and mostly compare array shapes; alignment of position with profile, ragged depths, NaN handling, own-float exclusion inside a selection are not asserted.",
  ["pyowc/data/fetchers.py"], [("get_data", "pyowc/data/fetchers.py"), ("get_region_hist_locations", "pyowc/data/fetchers.py"), ("get_region_data", "pyowc/data/fetchers.py"), ("_sync_nans", "pyowc/data/fetchers.py")],
  state=[("lru caches of the box files", "one parsed box per path (and float name for Argo)", "pyowc/data/fetchers.py read_mat_*")],
  observe=["return values of get_region_hist_locations and get_region_data"])

p("P03", "Calendar dates become decimal years correctly and in order",
  "For every valid calendar stamp of 8, 10, 12 or 14 digits (YYYYMMDD[hh[mm[ss]]]) the decimal year is the year plus (days before that day in a 365-day calendar, plus hours and minutes as a fraction of a day) divided by 365 (29 February counting as 1 March); later stamps never get a smaller value, 29 February apart, and each element is converted on its own, in order. "
  "A stamp whose month or day is out of range, or that is not a number, is converted to 0 and does not disturb its neighbours. A month index above 12, or a day beyond the year, given to the calendar conversion itself is an error.",
  ["inputs"], "all stamps, valid and invalid, in arrays of any length, as ints, floats or strings",
  "The tests convert six hand-picked dates.",
  ["pyowc/utilities.py"], [("change_dates", "pyowc/utilities.py"), ("cal2dec", "pyowc/utilities.py")],
  observe=["return value of change_dates / cal2dec"])

p("P04", "Longitudes are brought onto one continuous branch without moving points",
  "Normalising a set of longitudes never moves a point on the globe (each value changes by 0 or a multiple of 360 degrees), keeps the order and number of values, and leaves none negative. "
  "When some value lies in [320, 360] the values in [0, 40] are carried past 360 so that the region is continuous across Greenwich; otherwise nothing beyond the negative values changes.",
  ["inputs"], "all arrays of longitudes from -180 to 360",
  "Three example arrays are tested.",
  ["pyowc/utilities.py"], [("wrap_longitude", "pyowc/utilities.py")], observe=["return value of wrap_longitude"])

p("P05", "Distance, correlation and vorticity measures follow their definitions",
  "The measure of membership of a point in the search ellipse, the spatio-temporal separation of two points, and barotropic potential vorticity equal their published formulas for all inputs: the ellipse reaches three times the longitude and latitude scale, separation is the sum of squared scaled differences in longitude, latitude and date, and both add the squared relative difference in potential vorticity over the cross-isobath scale when both vorticities are given. "
  "They are non-negative, zero for coincident points, symmetric in the two points, and decrease as a scale grows; vorticity is 2*7.292e-5*sin(latitude)/depth, replaced by 1e-5 where that is exactly zero.",
  ["inputs"], "all positions, dates, depths and scales, with and without vorticity",
  "The tests compare a few precomputed numbers to four decimals.",
  ["pyowc/core/finders.py", "pyowc/utilities.py"], [("find_ellipse", "pyowc/core/finders.py"), ("spatial_correlation", "pyowc/utilities.py"), ("potential_vorticity", "pyowc/utilities.py")],
  observe=["return values"])

p("P06", "The casts selected for mapping are the best ones, unique and within the limit",
  "Of the reference casts inside the float's search ellipse, all are selected if there are at most the allowed number; otherwise exactly that number, all distinct: a random third (reproducible from call to call), then those closest on the large space and time scales among the rest until two thirds are filled, then those closest on the small scales. "
  "No cast outside the ellipse is ever selected, potential vorticity enters both the ellipse and the closeness when it is switched on, and the selection does not depend on the state of the random generator, nor on casts outside the ellipse.",
  ["inputs", "configurations"], "all sets of reference casts, positions, scales, vorticity on/off and limits of five or more casts",
  "The tests use one random cloud and check the number selected and one stored expectation.",
  ["pyowc/core/finders.py"], [("find_besthist", "pyowc/core/finders.py")], observe=["return value of find_besthist"])

p("P07", "The Subantarctic Front filter keeps exactly the casts on the float's side",
  "South of 30S, a float profile with usable data around 300 dbar is north of the front when it is warmer than 5 degC at 300 dbar, south when colder than 3 degC, and otherwise on the side whose climatological temperature-salinity envelope contains its whole 150 to 1700 m profile (neither if both or none does); with a side assigned, only reference casts whose own in-situ temperature at 300 dbar puts them on that side are kept. "
  "When no side can be assigned, or the float is not south of 30S, all reference casts are kept. "
  "Kept casts stay complete and aligned in all their fields, in their original order.",
  ["inputs"], "all float profiles and sets of reference casts, including repeated pressures, NaN and profiles that do not reach 300 dbar",
  "The tests run one float and compare shapes and a count.",
  ["pyowc/data/fetchers.py"], [("frontal_constraint_saf", "pyowc/data/fetchers.py")], observe=["return value of frontal_constraint_saf"])

p("P08", "Reference profiles are interpolated onto float temperature surfaces correctly",
  "For every float level with finite salinity, temperature and pressure, and every reference cast, the interpolated salinity and pressure are the linear interpolation in potential temperature between two consecutive good levels of that cast that bracket the float's temperature; where several pairs do (inversions, repeats), the one whose interpolated pressure is nearest the float's pressure is used, and salinity and pressure come from the same pair. "
  "Where no pair brackets it, or the float level is not good, both are NaN; no extrapolation ever happens, missing reference levels are skipped, results for one cast or level do not depend on any other, and the inputs are not modified.",
  ["inputs"], "all float and reference profiles with arbitrary NaN patterns, inversions, repeats and mixed-layer isotherms",
  "The tests compare one Matlab fixture and check shapes for bad input.",
  ["pyowc/data/wrangling.py"], [("interp_climatology", "pyowc/data/wrangling.py"), ("calculate_interpolation_weights", "pyowc/data/wrangling.py"), ("_get_cleaned_grid_data", "pyowc/data/wrangling.py")],
  observe=["return value of interp_climatology"])

p("P09", "Objective mapping is the optimal linear estimate with its own error",
  "For any reference salinities, positions, scales, signal and noise variance, the mapped value, its error, and the values and errors mapped back onto the reference positions are those of the objective mapping (Gauss-Markov estimate about the estimated mean, with the error of that mean included). "
  "Hence adding a constant to all salinities adds it to the mapped values and leaves errors alone, scaling deviations scales them, the order of reference points is immaterial, a uniform field maps to itself, and far from all data the value tends to the estimated mean.",
  ["inputs"], "all finite data sets and parameters with a well-conditioned covariance, vorticity on or off",
  "The tests compare one fixture (to the second decimal, for two points) and types.",
  ["pyowc/data/wrangling.py"], [("map_data_grid", "pyowc/data/wrangling.py")], observe=["return value of map_data_grid"])

p("P10", "Covariances are the stated Gaussians of separation, tiled correctly",
  "The covariance of any two points is exp(-(sum of squared scaled separations in the two horizontal coordinates, in date when an age scale is given, and in potential vorticity when switched on)): 1 for coincident points, between 0 and 1, symmetric, and each coordinate scaled by its own scale. "
  "The covariance matrix used to calibrate a series has one tile per pair of profiles: the small-scale horizontal covariance of the pair times the vertical covariance of the levels of the first profile, which is exp(-(temperature difference)^2/scale^2) with the scale interpolated from the water-mass table at the row's temperature (the downward table above the diagonal, the upward table below it) and 1 on the diagonal and at missing levels.",
  ["inputs", "configurations"], "all point sets, scales, vorticity switch, temperature matrices within the table's range and with NaN",
  "The tests compare two fixtures and shapes.",
  ["pyowc/core/stats.py"], [("covar_xyt_pv", "pyowc/core/stats.py"), ("covarxy_pv", "pyowc/core/stats.py"), ("build_cov", "pyowc/core/stats.py")],
  observe=["return values"])

p("P11", "Signal and noise variance are estimated as defined",
  "Signal variance is the mean squared deviation from the mean of the values that are not missing, and an all-missing set is an error. "
  "Noise variance is half the mean squared difference between each value and that of its nearest neighbour at a different position, ties going to the first in order; coincident points are never each other's neighbour, and with no two distinct positions it is 0. "
  "Both ignore a constant added to all values, scale with the square of a factor, and do not modify their inputs.",
  ["inputs"], "all salinity sets and position sets, with repeated positions and missing values",
  "Small hand-made arrays are tested.",
  ["pyowc/core/stats.py"], [("signal_variance", "pyowc/core/stats.py"), ("noise_variance", "pyowc/core/stats.py")], observe=["return values"])

p("P12", "The mapped salinities of a float are those of the published method",
  "For any float file and reference database, the mapping run writes, for each profile and each level with a salinity at or below the excluded surface layer that has more than five reference salinities on its temperature surface within the allowed pressure difference, the mapped salinity (large-scale map plus small-scale map of the residuals, after removing outliers beyond three standard deviations), its combined error, the noise and signal variance and the level's potential temperature; every other level is NaN in all of them, and mapped salinities outside 30 to 40 are NaN. "
  "Columns, profile numbers and per-profile settings are in order of profile number, and the list of selected reference positions has every reference cast used to within 1/60 degree, without duplicates, in order of profile number.",
  ["inputs", "configurations"], "all float files, reference databases, topographies and mapping settings (vorticity and front constraint on or off)",
  "The only end-to-end test needs a topography file that is not distributed, and covers one float with one configuration.",
  ["pyowc/calibration.py", "pyowc/helper.py"], [("update_salinity_mapping", "pyowc/calibration.py"), ("process_profile_hist_variables", "pyowc/helper.py"), ("remove_statical_outliers", "pyowc/helper.py"), ("selected_historical_points", "pyowc/helper.py"), ("sort_numpy_array", "pyowc/helper.py")],
  observe=["the saved map_<float>.mat"])

p("P13", "Mapping in several runs gives what mapping in one run gives",
  "However the profiles of a float arrive, in whatever order in the file and over however many runs, with levels added as deeper profiles appear, the mapped fields end up the same for each profile as from a single run over the complete file, and in order of profile number. "
  "A profile already mapped is never recomputed, changed or duplicated by a later run, its settings are kept even if the configuration has changed since, and a run with nothing new leaves the mapped fields as they were; so does a run over the file of an older version, without the setting of the front.",
  ["histories"], "all sequences of runs over growing float files, with configuration changes between them",
  "No test runs the mapping twice.",
  ["pyowc/calibration.py", "pyowc/helper.py"], [("update_salinity_mapping", "pyowc/calibration.py"), ("load_varibales_from_file", "pyowc/helper.py"), ("process_profiles_la_variables", "pyowc/helper.py"), ("sort_numpy_array", "pyowc/helper.py")],
  state=[("map_<float>.mat", "mapped fields of earlier runs, one column per profile", "FLOAT_MAPPED_DIRECTORY/<float_dir>")],
  observe=["the saved map_<float>.mat after each run"])

p("P14", "The ten temperature levels chosen for the fit are the least variable ones",
  "The levels offered are the mean potential temperatures of the series on evenly spaced pressures over the mapped data that lie inside the configured temperature and pressure bounds (a level exactly at a bound is inside; a lower bound below an upper bound keeps the band outside the pair); the chosen ones are the up to ten with the smallest salinity variance on the level among those reached by the required fraction of profiles, in increasing order of variance. "
  "For each profile and chosen level the index is that of the usable level nearest in temperature, and NaN where the profile does not reach the level; unmapped levels are never used, and a series with no usable range gets no levels.",
  ["inputs", "configurations"], "all float series with NaN patterns, inversions, and all combinations of bounds",
  "One float is tested, and the value test is not reliable in this environment.",
  ["pyowc/core/finders.py"], [("find_10thetas", "pyowc/core/finders.py")], observe=["return value of find_10thetas"])

p("P15", "The piecewise linear fit is the weighted least-squares optimum",
  "For any observations sorted in the independent variable, diagonal weights, and increasing break points inside the range, the fitted parameters are those of the continuous piecewise linear function (an intercept at the first point and one slope per segment) that minimises the weighted sum of squares, and the residuals are the observations minus that function. "
  "Data lying exactly on such a function are reproduced with zero residual; inputs of different length or with an undetermined segment give zero parameters and the observations as residuals.",
  ["inputs"], "all data sets, weights (or none) and break points",
  "Tests use one data set per path, some comparing only with stored output.",
  ["pyowc/core/stats.py", "pyowc/utilities.py"], [("brk_pt_fit", "pyowc/core/stats.py"), ("sorter", "pyowc/utilities.py")], observe=["return value of brk_pt_fit"])

p("P16", "The fit over profiles is the best model the options allow",
  "The correction estimated for each profile is the weighted least-squares fit (weights inversely proportional to the error variance) of the model asked for, an offset, a straight line, or a continuous piecewise line, using all finite observations and ignoring missing ones; with prescribed break points it is the optimum for those. "
  "When the number of break points is left open, up to the stated maximum and what the effective degrees of freedom allow, the model returned has the smallest corrected Akaike criterion among those tried and its fit is a local least-squares optimum in the break points; the reported coefficients, break points, time derivative and effective degrees of freedom are those of that fit. "
  "The fit follows a constant added to, or a factor applied to, the observations, and a shift of profile numbers; a series with nothing to fit gives NaN.",
  ["inputs", "configurations"], "all series of profiles with missing profiles and levels, error estimates, covariances and options",
  "The tests use three fixtures and cannot cover model choice, missing profiles or invariances.",
  ["pyowc/core/stats.py"], [("fit_cond", "pyowc/core/stats.py"), ("brk_pt_fit", "pyowc/core/stats.py")], observe=["return value of fit_cond"])

p("P17", "Uncertainties and station statistics of the fit are consistent with the data",
  "The error reported for each profile's correction is the standard error of the weighted fit given the observation errors, inflated by the ratio of parameter variances with and without the given covariance of the observations; errors scale with the observation scale, do not change when a constant is added, and with prescribed breaks or a line agree with linear error propagation. "
  "The error of the time derivative is the standard error of the slope that applies to each profile, and the station mean and scatter of each profile are the weighted mean and rms deviation of that profile's own observations, NaN for profiles without data.",
  ["inputs", "configurations"], "all series, error estimates and covariances",
  "The tests compare one Matlab fixture loosely.",
  ["pyowc/core/stats.py"], [("fit_cond", "pyowc/core/stats.py")], observe=["return value of fit_cond"])

p("P18", "Calibrated salinities apply the fitted conductivity correction and nothing else",
  "For any float, mapped data and calibration series, the file written has for every profile of a series, at every level, the float's potential conductivity times that profile's fitted factor, the salinity that corresponds to it, and the error that follows from the error of the factor; the one-profile-at-a-time (station) salinity and error follow in the same way from the station mean and scatter, and profiles outside any series and missing levels are NaN. "
  "The factors are the fit of mapped to measured potential conductivity on the chosen temperature levels, each series on its own; multiplying the float's conductivity by a constant divides the factors by it and leaves the calibrated salinity unchanged, and a float that agrees with the mapped data is left as it is. The columns of the file are in order of profile number whatever their order in the float file, profiles on either side of Greenwich count as neighbours, and break points or limits that do not match the series give a file of missing values.",
  ["inputs", "configurations", "histories"], "all floats, mapped fields, calibration series (several series, zero flags, prescribed breaks, bounds)",
  "The end-to-end test needs a topography file that is not distributed; nothing covers several series, breaks or excluded profiles.",
  ["pyowc/calibration.py"], [("calc_piecewisefit", "pyowc/calibration.py"), ("fit_cond", "pyowc/core/stats.py"), ("build_cov", "pyowc/core/stats.py"), ("find_10thetas", "pyowc/core/finders.py")],
  observe=["the saved cal_<float>.mat"])

p("P19", "The calibration series keeps the operator's choices and follows the float file",
  "Without a series file one is created with the documented defaults and one series over all profiles; with one, every setting in it is kept, a bound given with more than one value is dropped, and profiles new in the float file are added with the flag of the profile before them. "
  "The flags are always in order of profile number, one per profile of the float file, and are zero for profiles that have no salinity, no temperature or no pressure at all; running again changes nothing.",
  ["histories", "inputs"], "all histories of float files that gain profiles, and all edits of the settings in the series file",
  "The tests create the default file and re-read it.",
  ["pyowc/configuration.py"], [("set_calseries", "pyowc/configuration.py")],
  state=[("calseries_<float>.mat", "series flag per profile and fit settings", "FLOAT_CALIB_DIRECTORY/<float_dir>")],
  observe=["the saved calseries_<float>.mat"])

p("P20", "Topography is read at the right place everywhere on the globe",
  "For any longitude range (negative or beyond 360 included) and latitude range, the grid returned covers the requested area on the 1/12-degree raster with longitudes ascending and latitudes descending, and each elevation is the value stored in the topography file at that latitude and at that longitude modulo 360. "
  "The area is cut at the poles instead of failing there, and the coordinates returned match the elevations in shape.",
  ["inputs"], "all ranges, crossing Greenwich or the date line or touching a pole",
  "The tests check one small window, and need a topography file that is not distributed.",
  ["pyowc/data/fetchers.py"], [("get_topo_grid", "pyowc/data/fetchers.py")], observe=["return value of get_topo_grid"])

p("P21", "Plotted time series on temperature levels show the data they claim to show",
  "The salinity time-series plots draw, for each of the requested least-variable temperature levels, the float, mapped and calibrated salinity (with their errors) of every profile interpolated to that level between the neighbouring mapped levels inside the configured bounds, and nothing for profiles that do not reach it, under that temperature; the calibration-curve plot draws the correction factor and the vertically averaged offsets with one and two times their errors. "
  "One figure file per requested level and per plot is written to the plot directory, named after the float.",
  ["inputs", "configurations"], "all float, mapped and calibrated fields with NaN patterns, bounds and numbers of levels",
  "The plot tests only check that the functions return and that files appear.",
  ["pyowc/plot/plots.py"], [("sal_var_plot", "pyowc/plot/plots.py"), ("cal_sal_curve_plot", "pyowc/plot/plots.py")], observe=["lines, error bars and fills of the figures", "files in FLOAT_PLOTS_DIRECTORY"])

p("P22", "Salinity anomaly and profile plots show the data they claim to show",
  "The salinity anomaly drawn at each profile and temperature is that profile's salinity interpolated to the temperature (without extrapolation, repeated temperatures used once, profiles with fewer than three levels left out) minus the median over profiles at it, coloured whatever its size (red where high, blue where low) and blank where the profile has no data; the temperature-salinity curves draw every profile's own data, with the mapped salinity and its error marked at the chosen levels, and the profile plots draw the data with the chosen levels marked. "
  "Drawing changes no file but the plots, and one file per plot and per temperature range is written.",
  ["inputs", "configurations"], "all float and mapped fields with NaN patterns and all temperature ranges",
  "The plot tests only check that the functions return and that files appear.",
  ["pyowc/plot/plots.py", "pyowc/plot/utils.py"], [("sal_anom_plot", "pyowc/plot/plots.py"), ("theta_sal_plot", "pyowc/plot/plots.py"), ("t_s_profile_plot", "pyowc/plot/plots.py"), ("create_dataframe", "pyowc/plot/utils.py")],
  observe=["lines, markers and filled contours of the figures", "files in FLOAT_PLOTS_DIRECTORY"])

p("P23", "A full processing run leaves its inputs alone and is reproducible",
  "Running the whole chain (mapping, calibration series, calibration, diagnostic plots) on any float writes only into the mapped, calibration and plot directories, at the place given by the configured prefix, the float directory and the float name; float source, reference data, constants, and the configuration given by the caller are not modified. "
  "Running it again from scratch gives the same mapped fields, factors and calibrated salinities, and processing other floats before, after, or at the same time in other processes does not change the result for this one.",
  ["histories", "configurations"], "all sequences of floats processed in one process, with any float directory and file prefixes",
  "No test runs the chain, or two floats in one process.",
  ["pyowc/calibration.py", "pyowc/configuration.py", "pyowc/plot/dashboard.py", "pyowc/data/fetchers.py"],
  [("update_salinity_mapping", "pyowc/calibration.py"), ("calc_piecewisefit", "pyowc/calibration.py"), ("set_calseries", "pyowc/configuration.py"), ("plot_diagnostics", "pyowc/plot/dashboard.py"), ("read_mat_argo", "pyowc/data/fetchers.py")],
  state=[("module level caches and globals", "box file caches and the fit's globals outlive a call", "pyowc/data/fetchers.py, pyowc/core/stats.py")],
  observe=["all files under the configured directories before and after"])

p("P24", "Mapping does not depend on where on the globe Greenwich is",
  "Over a uniform sea floor, shifting the longitudes of a float and of all reference casts by the same multiple of 10 degrees (moving the reference data to the matching boxes) leaves every mapped salinity, error and variance unchanged, also when the shift carries the region, the float, or only some of the casts across 0/360 or 180. "
  "The selected reference positions shift along with it, modulo 360.",
  ["inputs"], "all floats and reference sets, and all 36 shifts",
  "No test maps a float near Greenwich or the date line.",
  ["pyowc/calibration.py", "pyowc/utilities.py", "pyowc/core/finders.py"], [("update_salinity_mapping", "pyowc/calibration.py"), ("wrap_longitude", "pyowc/utilities.py"), ("find_25boxes", "pyowc/core/finders.py"), ("get_topo_grid", "pyowc/data/fetchers.py")],
  observe=["the saved map_<float>.mat of the two runs"])

p("P25", "The trajectory plot shows every profile and reference position at its place",
  "The trajectory plot draws every profile of the float at its own position, joined in order of profile number, every reference position that was selected at its place, and every shape of the coastline file (of the bathymetry and reef files when asked for) with all its parts; the first, every third and the last profile are annotated with their own number at their own position and no others, and the map's limits contain all profiles and reference positions. "
  "Made from the files of a calibrated float, longitudes are the true ones modulo 360 (between -180 and 180), in whatever order the float file lists its profiles, and neither the data nor other figures are affected.",
  ["inputs", "configurations"], "all float and reference positions (missing positions, astride Greenwich or the date line), all shape files and options",
  "The plot tests only check that the function returns.",
  ["pyowc/plot/plots.py", "pyowc/plot/utils.py", "pyowc/plot/dashboard.py"], [("trajectory_plot", "pyowc/plot/plots.py"), ("draw_shapes_as_patches", "pyowc/plot/plots.py"), ("create_dataframe", "pyowc/plot/utils.py"), ("plot_diagnostics", "pyowc/plot/dashboard.py")],
  observe=["lines, annotations, patches and limits of the figure", "files in FLOAT_PLOTS_DIRECTORY"])

p("P26", "An interrupted run leaves whole files, and running it again completes it",
  "Whenever a mapping, calibration-series or calibration run is stopped, by an interrupt or by the end of its process, also while it reads reference data or writes its result, the file it writes is afterwards either what it was before or the whole result, and no other file is changed. "
  "An interrupt ends the run; it is never taken for missing data and never changes what is written. "
  "Running again, in the same process or another, gives what a run that was not stopped gives.",
  ["crash_points", "histories", "inputs"], "all points at which a run can be stopped, by an exception or by the end of the process, over all floats and earlier results",
  "The tests never stop a run.",
  ["pyowc/calibration.py", "pyowc/configuration.py", "pyowc/utilities.py", "pyowc/data/fetchers.py", "pyowc/helper.py"],
  [("update_salinity_mapping", "pyowc/calibration.py"), ("calc_piecewisefit", "pyowc/calibration.py"), ("set_calseries", "pyowc/configuration.py"), ("get_region_data", "pyowc/data/fetchers.py"), ("get_region_hist_locations", "pyowc/data/fetchers.py")],
  observe=["the .mat files before and after the stop, and after the next run"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
