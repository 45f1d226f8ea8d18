#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=hook)))


prop("C01", "Interpolation never invents data across gaps",
     "Interpolating a time series onto any target timestamps returns, at each target: the recorded value if the target is a recorded (non-missing) timestamp; the time-linear value between the two neighbouring recorded samples if those are no further apart than the maximum gap (default: twice the median sample spacing); and missing otherwise - inside longer gaps, before the first and after the last sample. The result carries exactly the target index and the input's name, for each column of a table independently, whatever the time zones of the two indexes; mixing zone-aware and naive indexes is refused.",
     ["inputs", "configurations"],
     "all irregular/NaN-holed series and tables, all target indexes and frequencies, all max_timedelta, all zones incl. DST changes",
     "tests sample one 6-point series, two targets and two gap limits; they never combine NaN holes, off-grid targets, edge targets, columns with different holes and DST zones",
     ["rdtools/normalization.py"],
     [("interpolate/_interpolate_series: gap size back-filled onto targets and compared with max_timedelta", "rdtools/normalization.py")],
     ["return value of rdtools.interpolate"])

prop("C02", "Energy from power is the integral of power, missing only where data is missing",
     "The energy series computed from a power series is, for every output interval, the integral of power over exactly that interval - piecewise constant backwards for right-labelled power, trapezoidal for instantaneous power - labelled at the interval's right edge on a regular grid anchored at the first power timestamp; a target frequency no coarser than the median spacing is reached by interpolating the power first. Stretches between consecutive valid samples longer than the maximum gap (default: the median sample spacing) contribute nothing and an interval is missing when it has no valid stretch or ends inside an over-long gap in the sampling; where no gap exceeds the limit, total energy is conserved at every target frequency.",
     ["inputs", "configurations"],
     "all irregular power series with NaNs and gaps, all target frequencies finer/equal/coarser than the data, both labelling conventions, all max_timedelta",
     "tests check a handful of 3-6 point examples at a few frequencies; energy conservation over arbitrary irregular sampling and gap placement is quantified over all inputs",
     ["rdtools/normalization.py"],
     [("energy_from_power: choice of grid, gap limit, resampling", "rdtools/normalization.py"),
      ("_aggregate: back-fill/trapezoid, gap mask, right-closed binning", "rdtools/normalization.py")],
     ["return value of rdtools.energy_from_power"])

prop("C03", "Normalized energy is measured over expected energy, on one aligned index",
     "Normalizing PV power or energy yields, for every timestamp of the union of measured and modelled intervals, measured energy divided by modelled energy, together with the insolation of that interval; with PVWatts the modelled power is rating x irradiance/reference, multiplied by the linear temperature term exactly when both cell temperature and coefficient are given. A model sampled more coarsely than the measurement is interpolated onto the measurement's timestamps, a finer one is integrated; scaling the measurement scales the normalized values and leaves insolation unchanged, and an irregular PV series or an unknown input kind is refused.",
     ["inputs", "configurations"],
     "all measurement/model sampling combinations, offsets, NaNs, power and energy input, all PVWatts parameter subsets",
     "tests use constant series at two frequencies; alignment of mismatching indexes and NaN handling over all sampling combinations is untested",
     ["rdtools/normalization.py"],
     [("normalize_with_expected_power", "rdtools/normalization.py"), ("pvwatts_dc_power / normalize_with_pvwatts", "rdtools/normalization.py")],
     ["return values of normalize_with_expected_power and normalize_with_pvwatts"])

prop("C04", "Aggregation is the insolation-weighted mean of the points in each period",
     "For every aggregation period (calendar-aligned to the start of the first day in the index's own zone) the aggregated value is the insolation-weighted average of the normalized values in that period: it is invariant to scaling all insolation, lies between the smallest and largest contributing value when weights are non-negative, and is missing exactly when no weight falls in the period. A missing normalized value contributes to neither the weighted sum nor the weight.",
     ["inputs", "configurations"],
     "all value/insolation series with NaNs and zero weights, all aggregation frequencies, all zones incl. DST days",
     "the only test aggregates one 4-point monthly example without missing values",
     ["rdtools/aggregation.py"],
     [("aggregation_insol: ratio of resampled sums", "rdtools/aggregation.py")],
     ["return value of rdtools.aggregation_insol"])

prop("C05", "Threshold filters keep exactly the points inside their documented bounds",
     "The normalized, irradiance, cell-temperature, clear-sky-index, quantile-clipping and insolation filters return a boolean mask on the input's index that is true for exactly the points inside the documented bounds: strictly between low and high (a bound of None meaning unbounded for the normalized filter), clear-sky index within the threshold of one inclusive, strictly below 99% of the robust quantile, and at or above the insolation quantile. A missing value is never kept, and widening a bound never removes a point.",
     ["inputs", "configurations"],
     "all series incl. NaN, infinities, values on the bounds, all bound settings incl. None, all quantiles",
     "tests sample one short series per filter; boundary inclusion, NaN/inf handling and non-default parameters are quantified over all values",
     ["rdtools/filtering.py"],
     [("normalized_filter, poa_filter, tcell_filter, csi_filter, clearsky_filter, quantile_clip_filter, clip_filter, insolation_filter", "rdtools/filtering.py")],
     ["returned masks"])

prop("C06", "Rolling outlier filters flag a point only from its own time window",
     "The two-way window filter keeps a point exactly when it is within the threshold (relative to the series' 99th percentile) of the median of its backward or of its forward window, treating a side with fewer than five points as agreeing; the Hampel filter keeps a point exactly when it is within t0 x 1.4826 x the rolling median absolute deviation of its centred rolling median; the directional Tukey filter keeps a point exactly when its deviation from the backward or the forward rolling median lies inside that side's k x IQR fences. Masks carry the input's index; time windows of the two-way and Tukey filters include both ends and the Hampel window is the half-open centred one, integer windows counting points (period + 1 for two-way and Tukey, period for Hampel); a missing point is kept by the two-way filter only, and all three decisions are unchanged when the series is rescaled by a positive factor.",
     ["inputs", "configurations"],
     "all series incl. gaps, irregular spacing, NaN, ties; all window lengths, thresholds and k",
     "tests check a single outlier in an otherwise clean daily series with default parameters",
     ["rdtools/filtering.py"],
     [("two_way_window_filter, hampel_filter, directional_tukey_filter, _tukey_fence", "rdtools/filtering.py")],
     ["returned masks"])

prop("C07", "Clipping detection flags the plateaus of each day and nothing else",
     "The logic clipping filter returns a boolean mask on exactly the input's index in which a point is excluded precisely when its power lies at its day's clipping levels - the range of powers found where consecutive readings vary by less than the cutoff over the rolling window, computed on that day's data above 10% of the daily maximum with frozen days ignored, every day judged by its own levels - or above the overall clipping threshold when at least 4% of points are clipped at the top of the distribution. The decision is unchanged by rescaling power or by the time zone label, both clipping filters are deterministic functions of the series alone, and unsorted, too short, non-datetime or unknown-mounting inputs are refused.",
     ["inputs", "configurations"],
     "all power series (plateaus, noise, frozen days, missing readings, gaps, duplicated stamps), sampling 1-60 min, both mountings, all cutoffs and window lengths",
     "tests run a few synthetic days with default parameters and count or spot-check masks",
     ["rdtools/filtering.py"],
     [("logic_clip_filter, _calculate_max_rolling_range, _apply_overall_clipping_threshold, _format_clipping_time_series, xgboost_clip_filter", "rdtools/filtering.py")],
     ["returned masks, raised errors"])

prop("C08", "Year-on-year degradation pairs each point with the one a year earlier",
     "The year-on-year rate is the median of all slopes between a point and the point whose first anniversary was passed most recently, at most eight days before (29 February having its anniversary on 28 February), each slope being the difference of the two values (divided by the robust median of the first 365 days when recentring) per 365 days, labelled at the later point; points missing a value contribute no slope. The reported slopes, renormalizing factor and per-point usage counts (one for each pair end the point is) agree with exactly those pairs, the input's order, zone and scale (when recentring) do not matter, and fewer than two years of data, or no pair at all, is refused.",
     ["inputs", "configurations"],
     "all daily/weekly/monthly/irregular series, leap days, gaps, NaNs, unsorted input, zones, with and without recentring",
     "tests use a few synthetic exactly-linear series; pairing around leap days, gaps and missing values is quantified over all calendars and holes",
     ["rdtools/degradation.py"],
     [("degradation_year_on_year: merge_asof on index shifted one year, 8-day tolerance", "rdtools/degradation.py"), ("robust_median", "rdtools/utilities.py")],
     ["Rd, calc_info['YoY_values'], ['usage_of_points'], ['renormalizing_factor'], raised errors"])

prop("C09", "Reported uncertainty brackets match the bootstrap distribution they name",
     "The confidence interval and exceedance level reported with a year-on-year rate are the requested percentiles of the bootstrap distribution of the median slope: lower bound <= upper bound, both inside the range of observed slopes, at the confidence level asked for, widening with it, the exceedance level at 100 minus the exceedance probability; with circular-block bootstrap every bootstrap replicate consists of circularly contiguous residual blocks of the asked length re-applied to the fitted trend. With uncertainty disabled only the rate is returned, and the rate itself never depends on the uncertainty method or on the random state.",
     ["inputs", "configurations"],
     "all slope samples, confidence levels, exceedance probabilities, block lengths, random states",
     "tests compare against fixed numbers with loose tolerance or not at all; the percentile semantics over all levels is not sampled",
     ["rdtools/degradation.py", "rdtools/bootstrap.py"],
     [("bootstrap of medians and percentiles in degradation_year_on_year", "rdtools/degradation.py"), ("_make_time_series_bootstrap_samples, _construct_confidence_intervals", "rdtools/bootstrap.py")],
     ["Rd, CI, calc_info['exceedance_level'], calc_info['bootstrap_rates']"])

prop("C10", "Regression degradation rates are exact least-squares trends",
     "Ordinary least squares reports the exact least-squares slope and intercept of the non-missing values against elapsed years of 365 days since the first timestamp, and the rate as 100 x slope / intercept; classical decomposition does the same on the centred 365-day moving average restricted to points with at least half a year of data on both sides, reports that average, and the Mann-Kendall trend verdict of it (tie-corrected). Rates are unchanged by rescaling the series, the confidence interval is ordered and brackets the rate, and classical decomposition refuses series that are irregular or have missing values.",
     ["inputs", "configurations"],
     "all regular and irregular series with and without NaN, any sampling, any scale and confidence level",
     "tests use a single exactly linear series at several frequencies",
     ["rdtools/degradation.py"],
     [("degradation_ols, degradation_classical_decomposition, _mk_test, _degradation_CI", "rdtools/degradation.py")],
     ["returned rate, CI, calc_info"])

prop("C11", "Irradiance rescaling is one factor, self-consistent with its clear-sky set",
     "Rescaling modelled irradiance returns the modelled series multiplied by one positive factor on the same index; with the iterative method that factor is (within the convergence threshold) the least-squares factor over exactly the points where measured irradiance exceeds 200 and the clear-sky index under that factor is within 20% of one, so a model that is a scaled copy of the measurement is recovered exactly, whatever the model's initial scale. If successive factors do not settle within the allowed iterations the call raises its convergence error instead of returning, and an unknown method is refused.",
     ["inputs", "configurations"],
     "all measured/modelled pairs incl. clouds, NaN, arbitrary scale; all iteration limits, thresholds and methods",
     "tests use one scaled sine-like example per method",
     ["rdtools/normalization.py"],
     [("irradiance_rescale: fixed-point iteration", "rdtools/normalization.py")],
     ["return value, ConvergenceError"])

prop("C12", "Soiling intervals partition the record and are judged by their own data",
     "Stochastic rate-and-recovery analysis splits the days between the first and last valid performance value into consecutive, non-overlapping intervals that together cover every day (all but the first and last interval when trimming), a new interval starting exactly at a cleaning event: a rise of the rolling-median performance above the threshold, a precipitation event, or both within a day, as the criterion says, or the edge of a long data gap. Each interval reports the robust (Theil-Sen) slope of its own positive performance values and is valid exactly when it is long enough, has no positive slope, its slope is sufficiently certain, and it contains no larger negative step; invalid intervals report zero rates, rates ordered low <= high <= 0, and no valid interval at all is an error.",
     ["inputs", "configurations"],
     "all daily performance series with gaps, zeros and steps, all precipitation records, criteria, thresholds, window lengths, trim settings",
     "tests pin the values of one synthetic sawtooth profile",
     ["rdtools/soiling.py"],
     [("SRRAnalysis._calc_daily_df: cleaning event detection", "rdtools/soiling.py"), ("SRRAnalysis._calc_result_df: per-run fit and validity", "rdtools/soiling.py")],
     ["soiling_interval_summary, soiling_ratio_perfect_clean, renormalizing_factor, NoValidIntervalError"])

prop("C13", "Every stochastic soiling profile is a possible soiling history",
     "Every stochastic soiling profile starts clean at one, changes linearly inside each soiling interval at a rate drawn from that interval's reported rate bounds, and between intervals recovers only as the cleaning method allows: always fully for perfect cleaning, to a level between the interval's end and fully clean for random cleaning, never above one for half-normal cleaning; invalid stretches sit at one constant level between the neighbouring valid levels. The reported soiling ratio, confidence interval and exceedance level are the matching percentiles of the insolation-weighted means of those same profiles, one per repetition.",
     ["inputs", "histories", "configurations"],
     "all interval tables (valid/invalid patterns of any length), all methods, random states, insolation weights, confidence levels",
     "tests pin the seeded outcome of one profile; the possible histories over any interval pattern and random draw are not sampled",
     ["rdtools/soiling.py"],
     [("SRRAnalysis._calc_monte, SRRAnalysis.run", "rdtools/soiling.py")],
     ["soiling_srr return values, calc_info['stochastic_soiling_profiles']"])

prop("C14", "Annual and monthly soiling summaries aggregate what they say",
     "Annual soiling ratios report, for every calendar year, the median and confidence percentiles over profiles of that year's insolation-weighted mean profile value; monthly soiling rates report, per calendar month, the number of qualifying intervals (valid, long enough, certain enough) that touch the month and rate percentiles inside the hull of those intervals' rate bounds, weighted by the days each spends in that month across all years, and missing when none does. Low <= median <= high throughout, and the result does not depend on the order of intervals.",
     ["inputs", "configurations"],
     "all profile sets, insolation series, interval tables spanning month/year ends, confidence levels",
     "tests pin one example each",
     ["rdtools/soiling.py"],
     [("annual_soiling_ratios, monthly_soiling_rates, _count_month_days", "rdtools/soiling.py")],
     ["returned tables"])

prop("C15", "Subsystem loss is charged only for offline subsystems, within their share",
     "The availability analysis charges subsystem loss at a timestamp only when at least one subsystem looks offline (at or below its threshold, missing counting as zero) and system power falls short of the power implied by the online ones by more than three quarters of the smallest offline share; the loss is then the system power scaled up by the online fraction, where that fraction is never taken below the online subsystems' capacity share nor above one, and never pushes system power above the given limit. Loss is never negative or missing, zero when all subsystems are online or none is, and unaffected by a pure communications dropout of a subsystem.",
     ["inputs", "configurations"],
     "all system/subsystem power tables incl. NaN, negative and zero readings, unequal sizes, all thresholds, relative sizes and limits",
     "tests cover a grid of clean synthetic outages with rounded comparison",
     ["rdtools/availability.py"],
     [("AvailabilityAnalysis._calc_loss_subsystem", "rdtools/availability.py")],
     ["loss_subsystem, reporting_mask after run()"])

prop("C16", "Each full outage is found once, with its true extent and classification",
     "Full-system outages are exactly the maximal stretches in which no subsystem reports during daylight (positive expected power), extended over adjoining nights; each is listed once, in order and without overlap, with its start, end, interval counts, the expected energy over it and the cumulative-meter production between the reading just before it and its last reading. It is classified unknown with missing loss when the meter fell by more than 5% of the expected energy or a bounding reading is missing (as for an outage at the very start of the record), real with loss = expected - actual when production is below the lower confidence bound for its length, and otherwise a communications outage with zero loss.",
     ["inputs", "histories", "configurations"],
     "all on/off histories incl. outages at the record's edges, single-interval and multi-day outages, meter resets and missing meter readings, all quantiles",
     "tests place one or two day-long outages in a 15-day clean record",
     ["rdtools/availability.py"],
     [("AvailabilityAnalysis._calc_loss_system", "rdtools/availability.py"), ("_calc_error_distributions", "rdtools/availability.py")],
     ["outage_info after run()"])

prop("C17", "Availability accounts balance: losses, production and availability agree",
     "Total lost power is the sum of system and subsystem loss at every timestamp; integrating the system loss over an outage gives exactly that outage's reported loss, and the corrected cumulative meter equals the raw meter outside outages and rises through each outage from its start to its end reading. For every rollup period lost production is the integral of total lost power, actual production the last minus the first corrected meter reading in the period, and availability = actual / (actual + lost), between zero and one when neither production nor loss is negative.",
     ["inputs", "histories", "configurations"],
     "all outage patterns, meter behaviours, rollup periods and losses at both levels",
     "tests never compare the integral of the reported loss series with the reported outage losses",
     ["rdtools/availability.py"],
     [("_calc_loss_system tail, _combine_losses", "rdtools/availability.py")],
     ["loss_system, loss_subsystem, loss_total, energy_cumulative_corrected, results after run()"])

prop("C18", "A point is analysed only if every configured filter keeps it",
     "In either workflow the combined filter is true at a timestamp exactly when every configured filter is true there - filters not configured having no say, undefined filter values and missing ad-hoc entries inside the mask's own index counting as excluded, timestamps an ad-hoc mask does not mention counting as kept - and the same holds for the filters on aggregated data; each component column equals the named filter applied with the configured parameters. The clear-sky filter acts only in the clear-sky workflow and the sensor clear-sky filter only in the sensor workflow, and a filter name outside the documented set can never enter the configuration by any dictionary operation, assignment or copy, leaving the configuration unchanged when refused.",
     ["configurations", "histories", "inputs"],
     "all subsets and parameters of filters, all ad-hoc masks (misaligned, with missing entries), all sequences of configuration operations",
     "tests toggle single filters on one data set; combinations, operation sequences and misaligned masks are sampled at a few points",
     ["rdtools/analysis_chains.py"],
     [("TrendAnalysis._filter, _aggregated_filter", "rdtools/analysis_chains.py"), ("ValidatedFilterDict", "rdtools/analysis_chains.py")],
     ["sensor_filter, sensor_filter_components, *_aggregated, filter_params after analysis"])

prop("C19", "Analysis histories do not leak: results depend only on data and configuration",
     "Whatever sequence of configuration changes, clear-sky set-up, sensor analyses and clear-sky analyses (some failing) a trend-analysis object goes through, the result stored for a workflow is the one a fresh object with the same data and configuration would give, a workflow's results and series are never altered by running the other workflow, repeating an analysis reproduces it, and an analysis that fails leaves previously stored results in place. Results appear only for the workflow and analyses requested, and a workflow whose prerequisites are missing is refused. (Data and model options are those fixed at construction; random draws are compared under the same seed.)",
     ["histories", "configurations"],
     "all operation sequences over one object, both workflows, all analyses subsets, failures at any step",
     "tests run one analysis on a fresh object each; sequences are not explored",
     ["rdtools/analysis_chains.py"],
     [("TrendAnalysis methods and attributes", "rdtools/analysis_chains.py")],
     ["results, *_aggregated_performance, *_filter attributes"],
     state=[dict(name="results", meaning="stored results per workflow", where="TrendAnalysis.results")])

prop("C20", "The caller's data is never modified",
     "No public analysis, filter, normalization, aggregation, degradation, soiling or availability call changes the values, index, name, frequency or dtype of any series, table, dictionary or list passed to it, on success or on failure; the outcome of a call depends on its arguments alone: called twice on the same data it returns the same result, and default arguments are never changed by earlier calls.",
     ["inputs", "configurations"],
     "every public entry point, with named/unnamed, unsorted, NaN-holed and read-only data and option dictionaries",
     "tests compare results only; nothing compares inputs before and after",
     ["rdtools/normalization.py", "rdtools/filtering.py", "rdtools/degradation.py", "rdtools/soiling.py", "rdtools/availability.py", "rdtools/analysis_chains.py", "rdtools/aggregation.py"],
     [("defensive copies", "all modules")],
     ["arguments before and after each call"])

prop("C21", "Clear-sky temperature follows the day, the season and the place",
     "The clear-sky ambient temperature is returned on exactly the requested timestamps and equals the location's climatological day/night mean plus 0.35 times the day-night range times a 24-hour cosine of local solar time, the climatology being the Gaussian-smoothed monthly values of the grid point nearest to the coordinates, interpolated linearly in time between local midnights; the same instants expressed in another zone give the same daily phase. Coordinates without data give missing values and a warning rather than a number.",
     ["inputs", "configurations"],
     "all coordinates, zones, timestamps incl. DST changes, frequencies, window sizes",
     "tests compare means of two locations only",
     ["rdtools/clearsky_temperature.py"],
     [("get_clearsky_tamb, _get_pixel_value, _get_temperature", "rdtools/clearsky_temperature.py")],
     ["return value of get_clearsky_tamb"])

prop("C22", "Robust statistics ignore missing and negligible values",
     "The robust quantile, median and mean of a series are the ordinary quantile, median and mean of its values above one thousandth of the (missing-as-zero) threshold quantile: replacing missing values by zeros, reordering, or rescaling by a positive factor changes the result only by that factor, and the result lies between the smallest and largest retained value.",
     ["inputs", "configurations"],
     "all non-negative series with NaN/zero patterns, all quantile levels",
     "tests check one series each",
     ["rdtools/utilities.py"],
     [("robust_quantile, robust_median, robust_mean", "rdtools/utilities.py")],
     ["return values"])

prop("C23", "Solar-geometry and clear-sky detection filters apply the documented parameters",
     "The hour-angle filter keeps exactly the timestamps whose solar hour angle at the site (in [-180, 180), the same for an instant in any zone) lies in the closed range asked for; the pvlib clear-sky filter returns the clear-sky detection result for the given thresholds on the union of both indexes, and with parameter lookup on a series of known frequency it uses the recommended window, max-difference, variance and slope thresholds interpolated linearly in sampling minutes between 1, 5, 15 and 30 and held constant outside.",
     ["inputs", "configurations"],
     "all sites, zones and angle ranges; all frequencies, thresholds and mismatching indexes",
     "tests run one day and one lookup case",
     ["rdtools/filtering.py"],
     [("hour_angle_filter, pvlib_clearsky_filter, clearsky_filter", "rdtools/filtering.py")],
     ["returned masks"])

prop("C24", "The combined soiling-degradation decomposition fits and multiplies back to data",
     "A combined degradation-and-soiling decomposition returns components on the data's daily index (leading missing days dropped): a soiling ratio (at most one when clipped), a soiling rate that is zero on days whose ratio is that of the day before, a seasonal component of the data over the soiling ratio, repeating by day of year, a degradation trend that is the line through one given by the reported rate - itself the year-on-year rate of the data over the other components when fitted last - and components not asked for equal to one. The total model is the product of the components times the residual shift (the mean ratio of data to that product), residuals are data over the unscaled product, the soiling loss is the mean of 1 - soiling ratio in percent, and the small-signal flag is set exactly when the 10-90 percentile spread of the soiling ratio is below the significance times that of the residuals. Components are fitted in the given order, cycle after cycle, first assuming perfect cleaning and then not, until a cycle improves the fit by less than the criterion or the iteration limit is reached; the soiling signal is the Kalman-smoothed signal between detected and given cleaning events. The bootstrap reports the best of one fit per combination of alternatives, with ordered intervals that widen with the level; series without daily frequency and unusable orders are refused.",
     ["inputs", "configurations"],
     "all daily performance series, component orders, sensitivities, pruning, given cleaning events, clipping and bootstrap settings",
     "tests check loose bounds of one synthetic series",
     ["rdtools/soiling.py"],
     [("CODSAnalysis.iterative_signal_decomposition, _Kalman_filter_for_SR, run_bootstrap, soiling_cods", "rdtools/soiling.py")],
     ["returned frames and result dicts, attributes after run_bootstrap"])

prop("C25", "The sensor and clear-sky workflows compose their documented steps",
     "The performance series a trend analysis reports is obtained by interpolating every input to the PV index, modelling cell temperature from ambient only when none is given, normalizing PV energy by PVWatts (renormalized to its robust 95th percentile when no rating is given) or by the user's expected power, removing points excluded by the filter, insolation-weighting into aggregation periods and removing periods excluded by the aggregated filter, on a regular grid at the aggregation frequency; the reported rate, interval and details are those of the year-on-year analysis of that series, and soiling results those of the soiling analysis of it. Less than two years of filtered data is refused.",
     ["inputs", "configurations"],
     "all constructor options (power/energy input, measured/ambient temperature, rating given or not, expected power, interp_freq, max_timedelta, aggregation_freq)",
     "tests run a few option combinations on one ideal data set and compare the rate only",
     ["rdtools/analysis_chains.py"],
     [("TrendAnalysis.__init__, _sensor_preprocess, _clearsky_preprocess, _pvwatts_norm, _aggregate, _yoy_degradation, _srr_soiling", "rdtools/analysis_chains.py")],
     ["sensor_aggregated_performance, sensor_aggregated_insolation, results"])

prop("C26", "Results depend on the data, not on how it is written down",
     "The outcome of every public analysis, filter, normalization, aggregation, degradation, soiling, availability and trend-analysis call is the same - the same numbers at the same times, or the same refusal - for every representation of the same data: timestamps stored in nanoseconds, microseconds, milliseconds or seconds (also differing between the inputs), with or without a declared index frequency, with any series and index names, whole numbers in integer or floating types, read-only or shared memory, a time zone under another name with the same clock, any time zone of the machine and either copy mode of pandas. Only a documented demand may make a difference, and only by refusing: classical decomposition and CODS need a declared frequency, availability inputs must share one index.",
     ["inputs", "configurations"],
     "every public entry point, every combination of representations of its inputs, data with holes, gaps, whole numbers, with and without a time zone",
     "tests hold all data in one representation (nanosecond pandas date ranges)",
     ["rdtools/normalization.py", "rdtools/filtering.py", "rdtools/degradation.py", "rdtools/soiling.py", "rdtools/availability.py", "rdtools/analysis_chains.py", "rdtools/aggregation.py", "rdtools/clearsky_temperature.py"],
     [("time steps and windows taken from indexes", "all modules")],
     ["returned values, raised exceptions"])

prop("C27", "The figures show the reported results",
     "Every figure is drawn from the reported results and nothing else: the degradation summary has one point per value of the performance series divided by the renormalizing factor, at its time and (detailed) in the colour of its use, a trend line from one at the first time to one plus the rate times the whole days in years of 365.25 at the last, a histogram in which every year-on-year rate is in exactly one of the equal bars (at least one, never more than rates), and a caption with rate, interval and number of rates; the rate over time is the moving median of the rates of the last given days where at least half as many rates exist, with a 95 percent bootstrap band; soiling figures show the renormalized performance with the profiles asked for, the perfect-clean ratio, and the rates of the valid intervals only in percent per day; the availability figure shows the power, lost power and meter series and per outage the expected production with its confidence interval; the filter figure shows kept and removed points apart. TrendAnalysis figures show the case asked for, any other case is refused.",
     ["inputs", "configurations"],
     "all results, plot options, short and monthly records, zones, holes, outages, cases",
     "tests check that a figure object is returned",
     ["rdtools/plotting.py", "rdtools/analysis_chains.py", "rdtools/availability.py"],
     [("degradation_summary_plots, degradation_timeseries_plot, soiling_*_plot, availability_summary_plots, tune_filter_plot", "rdtools/plotting.py"), ("TrendAnalysis.plot_*", "rdtools/analysis_chains.py")],
     ["artists of the returned figures"])

prop("C28", "The modelled clear sky belongs to the site, the orientation and the record",
     "When the user gives no clear-sky irradiance, a trend analysis models it: pvlib's one-minute clear-sky irradiance at the given location, transposed isotropically onto the configured tilt and azimuth (with the configured albedo and solar-position method), averaged over every interval of the PV record - the minutes after the previous timestamp up to and including its own; the first interval is missing - and multiplied by the one factor that matches it to the measured irradiance (C11). With an orientation that varies in time the irradiance is taken at the PV timestamps with the orientation known there. Clear-sky ambient temperature is the site's climatology and clear-sky cell temperature the zero-wind model of it, each only when not given; what the user gives is never replaced or modelled, in any order of set-up and workflows. The clear-sky workflow and the sensor workflow's clear-sky filter use exactly this; they are refused when location, orientation or set-up is missing.",
     ["inputs", "configurations", "histories"],
     "all sites, zones, tilts/azimuths (constant or series), albedos, solar-position methods, PV sampling with holes, subsets of given clear-sky inputs, orders of set-up and runs",
     "tests run one site on an ideal data set and compare the final rate only",
     ["rdtools/analysis_chains.py"],
     [("_calc_clearsky_poa, _calc_clearsky_tamb, _clearsky_preprocess, set_clearsky, _filter (clear-sky index)", "rdtools/analysis_chains.py")],
     ["poa_global_clearsky, temperature_ambient_clearsky, temperature_cell_clearsky after the workflows, clearsky results"])

prop("C29", "The learned clipping filter shows its model the trained features and obeys it",
     "The model-based clipping filter asks its trained model about exactly those intervals of the regular record (the most common interval, restored across short gaps; at least five minutes, finer records being averaged) whose sixteen features are all known, and shows it for each the features it was trained on: value in units of the record's range, steps to the previous and the next interval, centred averages and their steps, spread statistics of the steps, relative range of the following readings, the local day's top and the share of it, interval length and mounting. An interval's answer holds until the next one. A reading is excluded exactly when its local day has readings called clipped, it lies between the lowest and the highest of those (up to 0.25% above; for records finer than five minutes not below 96% of the highest), it reaches 95% (90%) of its day's top, and a tenth of the record's range; whatever the model says, nothing is excluded on other days and missing readings are kept as not clipped.",
     ["inputs", "configurations"],
     "all power records, sampling intervals, holes, zones incl. DST days, mountings, and all answers of the model",
     "tests compare the counts of excluded points on one synthetic series with the shipped model",
     ["rdtools/filtering.py"],
     [("xgboost_clip_filter, _calculate_xgboost_model_features", "rdtools/filtering.py")],
     ["rows and answers at XGBClassifier.predict", "returned mask"])

prop("C30", "The user is warned exactly when the inputs call for it",
     "A documented warning is issued exactly when its condition holds, for every call: interpolation when more than the threshold fraction of the recorded values follows an unbridged gap (with the percentage); clipping detection for records without a time zone, and when no single interval between readings makes up 95% of the record; a trend analysis when no temperature coefficient is given and performance is not user-modelled, when the clear-sky workflow runs on user-given expected power, and when a user's own point or period mask has missing entries or another index than the other filters; soiling analysis for an even detection window used for shift detection, and when at most 80% of the days have a usable soiling rate while recoveries are drawn at random (half_norm_clean, random_clean); annual soiling ratios when a profiled day has no insolation entry; availability when a loss is found at both levels in the same interval; clear-sky temperature when values are missing; and the deprecated helpers delta_index and check_series_frequency on every call, while still returning interval lengths in hours with their mean, and the frequency of a regular series (others refused).",
     ["inputs", "configurations"],
     "all records, sampling patterns, thresholds, mask defects, workflows, soiling options, places",
     "tests provoke single warnings on single inputs and never look at the limit of a condition or at combinations",
     ["rdtools/normalization.py", "rdtools/filtering.py", "rdtools/analysis_chains.py", "rdtools/soiling.py", "rdtools/availability.py", "rdtools/clearsky_temperature.py", "rdtools/_deprecation.py"],
     [("warnings.warn sites", "rdtools/*.py"), ("deprecated", "rdtools/_deprecation.py")],
     ["warnings issued by the public functions"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
