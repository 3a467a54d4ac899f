"""Writes /verif/properties.jsonl (one place to edit the texts)."""
import json, os
E = "gw_eccentricity/eccDefinition.py"
M = "gw_eccentricity/gw_eccentricity.py"
FF = "gw_eccentricity/eccDefinitionUsingFrequencyFits.py"
AMP = "gw_eccentricity/eccDefinitionUsingAmplitude.py"
U = "gw_eccentricity/utils.py"
RF = "gw_eccentricity/rational_fit.py"
SF = "gw_eccentricity/spin_filter.py"
LD = "gw_eccentricity/load_data.py"
CM = "gw_eccentricity/compare_methods.py"
CLI = "gw_eccentricity/postprocess/postprocess_cli.py"
CORE = "gw_eccentricity/postprocess/core.py"
PP = "gw_eccentricity/postprocess/postprocess.py"
TW = "gw_eccentricity/truncate_waveform_by_flow.py"
P = []
def add(id, title, statement, over, text, why, files, mech, state, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=observe, hook_needed=None)))

add("P01", "A measurement never modifies anything the caller passed in",
    "Measuring eccentricity, whether it succeeds or fails and with whatever method, frame and options, leaves every object of the caller (the waveform dictionary, its mode dictionaries and arrays, the reference arrays, the option dictionaries and everything nested in them) exactly as it was. This holds after any sequence of such calls, including calls that share the same objects, calls on the returned object, and diagnostic plots.",
    ["histories", "inputs", "configurations"],
    "every sequence of API calls over shared caller objects, every subset of accepted waveform keys, every method, frame and option set, successful and failing",
    "A test compares one call's output; a mutation shows only in what a later call on the same objects does, for a particular key set, method, frame or failure point.",
    [E, FF, LD, U],
    [("truncation of mode dictionaries", E + ":process_data_dict"), ("frame transformation", E + ":transform_inertial_to_coprecessing"), ("option defaults filled in", U + ":check_kwargs_and_set_defaults"), ("time axis shift", FF + ":find_extrema")],
    [("dataDict", "caller's waveform dictionary", M + ":measure_eccentricity"), ("extra_kwargs", "caller's options", E + ":__init__")],
    ["digest of all caller objects before and after each call"])
add("P02", "The result of a request depends on that request only",
    "The eccentricity, mean anomaly and returned reference points are determined by the arguments of the call: the same request gives identical values no matter what was measured, failed, queried or plotted before it in the process. Querying or plotting a returned object never changes what that object answers to any other query (apart from the documented reuse of the first computed frequency average in get_fref_bounds).",
    ["histories", "configurations"],
    "every history of measurements (all methods, domains, failures included), queries and plots that precedes a request",
    "Tests start from fresh state and issue one call; leaked state (class attributes, default dictionaries, caches) needs particular histories.",
    [E, M, FF, RF, AMP],
    [("default option dictionaries", E + ":get_default_extra_kwargs"), ("cached averages", E + ":get_fref_bounds"), ("degree search persists its options", E + ":get_rational_fit_for_extrema")],
    [("omega_gw_average", "cached average frequency", E), ("special_interp_kwargs_for_omega_gw_extrema", "options rewritten by the degree search", E)],
    ["outputs of each call in a history compared with outputs of the same call in a fresh process state"])
add("P03", "Reference times are selected exactly and point by point",
    "When reference times are given, the returned times are exactly the requested ones that are neither before both a pericenter and an apocenter have occurred nor after the last pericenter or the last apocenter (both limits included), in the order and multiplicity given. Eccentricity and mean anomaly have one entry per returned time, equal to what a request for that single time returns; a scalar request gives scalars, and a request with no admissible time is an error.",
    ["inputs"],
    "every finite list of requested times, sorted or not, with repeats, on and around the limits and the samples, and every layout of extrema",
    "Tests use sorted grids inside the range; order, repeats, exact limits and mixtures of admissible and inadmissible points are not sampled.",
    [E, M],
    [("range selection", E + ":measure_ecc"), ("scalar conversion", E + ":make_return_dict_for_eccentricity_and_mean_anomaly"), ("limits error", E + ":check_input_limits")],
    [("tmin/tmax", "admissible interval", E + ":measure_ecc")],
    ["returned dictionary of measure_eccentricity"])
add("P04", "Reference frequencies are selected exactly and mapped to the right times",
    "When reference frequencies are given, the returned ones are exactly the requested ones inside the allowed range the library itself reports (only the upper end may be excluded), in the order and multiplicity given, and none admissible is an error. The values returned for a frequency are those at the time at which the selected average frequency equals it, the same as in a request for that frequency alone; a scalar request gives scalars.",
    ["inputs", "configurations"],
    "every finite list of requested frequencies, sorted or not, with repeats, at and around both ends of the range, for every averaging and interpolation choice",
    "Tests check finiteness and agreement on a sorted interior grid; exact ends, order, repeats and isolated points are not sampled.",
    [E],
    [("frequency selection", E + ":get_fref_out"), ("frequency to time", E + ":compute_tref_in_and_fref_out_from_fref_in"), ("allowed range", E + ":get_fref_bounds")],
    [("omega_gw_average", "average frequency against time", E)],
    ["returned dictionary of measure_eccentricity", "frequency range reported by the returned object"])
add("P05", "Mean anomaly is linear in time between consecutive pericenters",
    "The mean anomaly at a time t lying between consecutive pericenters at a and b is 2*pi*(t-a)/(b-a), modulo 2*pi: it is zero at every pericenter, lies in [0, 2*pi) and depends on no other part of the data. It never depends on the interpolation or averaging choices.",
    ["inputs", "configurations"],
    "every layout of pericenters (equal or unequal spacing), every admissible reference time including the pericenters themselves, every method and interpolation choice",
    "Regression tests compare a few stored values on one waveform; unequal spacing and times on or next to a pericenter are not sampled.",
    [E], [("mean anomaly", E + ":compute_mean_anomaly")],
    [("t_pericenters", "times of accepted pericenters", E)],
    ["mean_anomaly of the result with the pericenter times of the returned object"])
add("P06", "Eccentricity follows the defining relation to the two frequency envelopes",
    "With wp and wa the frequencies at the reference time of curves through the frequency values at the accepted pericenters and apocenters respectively, the eccentricity e satisfies (3e - e^3)(wp + wa) = 2(wp - wa) on its physical branch. The curves pass through the data they are built from (a rational fit does so to its fit accuracy), so e is determined by the frequency samples at the pericenters and apocenters only, grows with the contrast wp/wa and vanishes when they coincide.",
    ["inputs", "configurations"],
    "every pair of envelopes the interpolants reproduce exactly, every admissible reference time, from nearly circular to highly eccentric",
    "Regression values on one waveform cannot separate the relation from accidents of that waveform.",
    [E],
    [("eccentricity", E + ":compute_eccentricity"), ("map to the physical eccentricity", E + ":et_from_ew22_0pn"), ("envelopes", E + ":get_omega_gw_extrema_interpolant")],
    [("omega_gw", "instantaneous frequency", E)],
    ["eccentricity of the result for constructed frequency data"])
add("P07", "Extrema that are extra, missing or too close are dropped as documented",
    "Given the located pericenters and apocenters: if the orbital phase gap between neighbours of one kind jumps by more than a factor 1.5 past the middle, everything after the jump is dropped, and if it falls by more than that factor before the middle, everything before the fall is dropped; a pair closer than one orbit of phase likewise drops what follows it (second half) or what precedes its later member (first half); finally at most one extremum of a kind remains beyond the outermost one of the other kind. Nothing else is dropped, added or moved, and the admissible time range and all results use exactly the remaining ones.",
    ["inputs"],
    "every pattern of phase gaps in the two sequences of extrema, at the start, the middle and the end",
    "Ordinary waveforms have no missing or spurious extrema, so these rules never fire in tests; their effect depends on position relative to the middle and on combinations.",
    [E],
    [("jumps", E + ":drop_extrema_if_extrema_jumps"), ("too close", E + ":drop_extrema_if_too_close"), ("extra at ends", E + ":drop_extra_extrema_at_ends"), ("order of the rules", E + ":get_good_extrema")],
    [("pericenters_location", "accepted pericenters", E), ("apocenters_location", "accepted apocenters", E)],
    ["pericenter and apocenter times of the returned object"])
add("P08", "Data of the excluded last orbits never influences the result",
    "When N orbits before merger are excluded, no sample from the point N orbits of phase before the merger onward is used, so changing amplitudes, frequencies or the data after the merger there, without moving the merger or the phase up to it that locates the excluded point, changes nothing; every earlier extremum stays usable. N = 0 keeps everything before the merger, None keeps the whole waveform, a negative N or a waveform with fewer than N orbits is rejected.",
    ["inputs", "configurations"],
    "every N, every waveform length relative to N, every perturbation confined to the excluded part, for all modes supplied",
    "Tests use the default N on smooth waveforms, where leaking a few samples or losing an extremum changes results imperceptibly.",
    [E],
    [("truncation", E + ":process_data_dict"), ("cut location", E + ":get_index_at_num_orbits_earlier_than_merger")],
    [("t, amp_gw, phase_gw, omega_gw", "data kept", E)],
    ["results and time range of the returned object"])
add("P09", "Exactly the documented waveform data is accepted, and equivalent data agree",
    "A waveform dictionary is accepted if and only if it has times and exactly one of complex modes or amplitude-and-phase modes (frequency modes optional), and for quasicircular reference data, where supplied, not both representations; methods and averages that need quasicircular data are rejected without it (incomplete quasicircular data that is not needed may be ignored or rejected). Dictionaries that describe the same waveform (complex modes, amplitude and phase, with or without the matching frequency, extra modes that do not move the merger or unknown keys) give the same result.",
    ["inputs", "configurations"],
    "every subset of the ten recognised keys plus an unknown key, with every method, averaging choice and reference domain",
    "There are thousands of key combinations; tests sample a handful.",
    [E, M],
    [("exclusive representations", E + ":process_data_dict"), ("decomposition", E + ":get_amp_phase_omega_data")],
    [("dataDict", "normalised data", E)],
    ["accepted or rejected, and values returned"])
add("P10", "Invalid arguments are rejected before any result is produced",
    "A request naming an unknown method, frame, interpolation or averaging choice, an unknown option at any level, both or neither of reference time and frequency, or a non-uniform time array raises an error; no value is returned. (A choice or option that the request does not use may go unchecked.) Every combination of documented options is accepted.",
    ["inputs", "configurations"],
    "every combination of valid and invalid arguments and option dictionaries",
    "Combinations of one invalid argument among valid ones, per method and nesting level, are too many for example tests.",
    [M, E, U],
    [("argument checks", E + ":__init__"), ("option checks", U + ":check_kwargs_and_set_defaults"), ("method dispatch", M + ":measure_eccentricity")],
    [("extra_kwargs", "validated options", E)], ["error or result of the call"])
add("P11", "Zero is reported only for long waveforms without extrema, on request",
    "Zero eccentricity and zero mean anomaly at all requested points are returned if and only if the caller enabled that fallback, the analysed part of the waveform is longer than five orbits, and fewer than two pericenters or fewer than two apocenters are found. Without the fallback, or for shorter data, too few extrema is an error; with two or more of each the fallback has no effect on the values.",
    ["inputs", "configurations"],
    "every combination of extrema counts, waveform length around five orbits, fallback on or off, reference domain, scalar or array requests and method",
    "Tests cover one small-eccentricity waveform; the boundary combinations are not sampled.",
    [E],
    [("count check", E + ":check_num_extrema"), ("zeros", E + ":set_eccentricity_and_mean_anomaly_to_zero")],
    [("return_zero_if_small_ecc_failure", "option", E)], ["values or error of the call"])
add("P12", "Verbosity and diagnostic options never change results",
    "The returned values and the object state that can be queried are the same for verbosity levels -1, 0 and 1, with and without diagnostic plots. Without diagnostic plots level -1 emits none of the library's warnings and prints nothing, level 0 emits a subset of the warnings of level 1, and level 2 raises an error if and only if level 1 would warn; other levels are rejected as soon as something is to be reported (the notice that zero is being returned on request is never an error).",
    ["configurations", "inputs"],
    "every verbosity level and diagnostic option, on inputs that trigger each kind of message",
    "Tests run at one level on clean waveforms, where no message is triggered.",
    [U, E, RF, FF],
    [("message policy", U + ":debug_message"), ("verbose fits", E + ":set_other_variables_for_extrema_interpolation")],
    [("debug_level", "verbosity", E)], ["returned values, emitted warnings, printed text, raised errors"])
add("P13", "Restricting the analysis to a few orbits selects the right stretch of data",
    "When only a given number of orbits is to be used, the analysed data is one contiguous stretch containing all requested reference points, at least that many orbits long and reaching about half that number of orbits before the earliest and after the latest of them, extended on the other side when cut by an end of the waveform. The selection does not depend on the order of the requested points nor on the origin of time; a waveform shorter than requested is used whole; and the values agree with those from the whole waveform.",
    ["inputs", "configurations"],
    "every number of orbits, every position and order of the reference points (near either end, in the middle, spread), time and frequency domains, any merger time",
    "Tests use sorted references and a few sizes on waveforms with merger at zero.",
    [E, U],
    [("segment", E + ":get_amp_phase_omega_gw_segments"), ("limits", E + ":_get_segment_indices"), ("reference bounds", E + ":_get_reference_bounds"), ("secular trend", E + ":get_approximate_tref_for_fref_using_secular_trend")],
    [("t", "analysed times", E)], ["time array of the returned object and the values"])
add("P14", "Results are invariant under changes of origin and units",
    "Shifting the time origin, changing the unit of time, scaling the overall amplitude, adding a constant to the phase, or rotating complex modes by a constant phase, and any composition of these, leaves eccentricity and mean anomaly at the corresponding reference points unchanged (up to rounding and, where rational fits are used, up to the absolute convergence threshold of these fits). The returned reference times and frequencies transform exactly like the inputs.",
    ["inputs", "histories"],
    "every composition of these transformations, every method, both reference domains",
    "Tests apply two fixed transformations on one waveform; absolute thresholds and leftover assumptions about the origin or unit need other values and methods.",
    [E, FF, U],
    [("merger time", U + ":peak_time_via_quadratic_fit"), ("minimum width", E + ":get_width_for_peak_finder_from_phase_gw"), ("Fits time axis", FF + ":find_extrema")],
    [("t_merger", "merger time", E)], ["values of the transformed and the original request"])
add("P15", "The adaptive degree search ends on the best acceptable rational fit it reaches",
    "Starting from the given or estimated degrees (reduced if there are too few extrema; the apocenter search starts from the degrees the pericenter search ended on), an unacceptable fit lowers both degrees by one, never below one, until a fit is acceptable, and an acceptable initial fit raises them until the next one is unacceptable or has too few data points, keeping the last acceptable one. The search always ends; the curve used is the one for the recorded final degrees, and a spline exactly when even degree (1,1) is unacceptable.",
    ["inputs", "configurations", "histories"],
    "every pattern of acceptable and unacceptable degrees, every number of extrema and every starting degree",
    "A given waveform produces one pattern; the reverting, lowering and exhaustion paths need others.",
    [E, RF, U],
    [("degree search", E + ":get_rational_fit_for_extrema"), ("too few points", RF + ":is_underdetermined"), ("reduction", RF + ":get_reduced_degrees"), ("estimate", E + ":get_approximate_degree_for_rational_fit")],
    [("rational_fit_degrees", "final degrees", E), ("rational_fit_nonmonotonicity_history", "tried degrees", E)],
    ["final degrees, tried degrees and the curves of the returned object"])
add("P16", "Every method reports true, consecutive, time-ordered extrema",
    "On a clean eccentric inspiral, with eccentricity large enough for the method to resolve, each method's pericenters and apocenters are, to sampling accuracy, local maxima and minima of the data it searches, listed once each in strictly increasing time, alternating, with none skipped between the first and the last, and reaching to within about one orbit of the start and a few orbits of the end of the analysed data, provided there are enough orbits for the method's fits. Consequently all methods agree on the mean anomaly.",
    ["inputs", "configurations"],
    "every method, orbit count, sampling, eccentricity and position of the first pericenter relative to the start of the data",
    "Tests use one waveform whose start happens to be aligned in one way; marching fits can skip or repeat an extremum for other alignments.",
    [E, FF, AMP],
    [("peak finding", AMP + ":find_extrema"), ("marching fit", FF + ":find_extrema"), ("local fit", FF + ":FindExtremaNearIdxRef")],
    [("t_pericenters", "accepted pericenters", E), ("t_apocenters", "accepted apocenters", E)],
    ["pericenter and apocenter times of the returned object"])
add("P17", "The average frequency is the documented one",
    "The orbit-averaged frequency between consecutive extrema of one kind is the phase advance divided by the elapsed time, placed at the midpoint in time, pericenter and apocenter averages being merged in time order; the mean-of-envelopes average is half the sum of the two envelopes. The reported frequency range is the range of that average (divided by 2*pi) over the admissible times, and an average that does not increase is an error rather than a result.",
    ["inputs", "configurations"],
    "every layout of extrema and phases, every averaging choice, including averages that fail to increase",
    "Tests check finiteness and agreement between averages on a smooth waveform only.",
    [E],
    [("orbit average", E + ":compute_orbit_averaged_omega_gw_between_extrema"), ("mean of envelopes", E + ":compute_mean_of_extrema_interpolants"), ("monotonicity", E + ":check_monotonicity_of_omega_gw_average"), ("range", E + ":get_omega_gw_average")],
    [("t_for_omega_gw_average", "times of the average", E), ("omega_gw_average", "average", E)],
    ["average frequency and range reported by the returned object"])
add("P18", "Spin-oscillation filtering happens exactly when required",
    "For precessing systems the amplitude and the frequency are each filtered if and only if the mode asymmetry relative to the residual oscillation exceeds the threshold and filtering is not disabled; otherwise the plain symmetric combination of the (2,2) and (2,-2) modes is used unchanged. The unfiltered data always stays available, lengths never change, and with a filtered frequency the first pericenter and the first apocenter are not used. Filtering removes the spin-induced oscillation before the merger, keeps the oscillation due to eccentricity, and leaves the data after the merger as it is.",
    ["inputs", "configurations"],
    "every combination of amplitude asymmetry, frequency asymmetry, threshold, disabling switch, method and frame",
    "No baseline test exercises the filter decision.",
    [SF, E],
    [("requirement", SF + ":check_filter_requirement"), ("selection", SF + ":check_and_filter_spin_induced_oscillations"), ("dropping", E + ":measure_ecc")],
    [("amp_gw_filtered, omega_gw_filtered", "filtered data or none", SF)],
    ["data attributes of the returned object and the values"])
add("P19", "Parallel postprocessing evaluates each selected sample exactly once, then stops",
    "For any number of processes, batch size, selection and order in which workers finish, each selected posterior sample is evaluated exactly once, the output has one row per selected sample in selection order carrying that sample's own parameters, status and values, and every process terminates. A failing sample is recorded as failed with its error and affects no other sample.",
    ["schedules", "configurations", "inputs"],
    "every interleaving of worker completions, every number of processes, batch size, selection (including empty and repeated) and set of failing samples",
    "Real MPI runs show one timing; a lost, doubled or misplaced sample or a process that never stops needs a particular interleaving.",
    [CLI, CORE],
    [("master", CLI + ":master"), ("worker", CLI + ":worker"), ("final merge", CLI + ":save_final")],
    [("results", "one slot per selected sample", CLI + ":master"), ("to_process", "remaining work", CLI + ":master")],
    ["output file, calls of the waveform generator, termination of every process"])
add("P20", "An interrupted postprocessing run resumes without loss, repetition or corruption",
    "If a run with checkpoints is killed at any point, including in the middle of writing a file, a rerun completes and gives the output an uninterrupted run gives. Samples in the last complete checkpoint are not evaluated again, at most the samples completed since then are, and neither the checkpoint nor the results file is ever left partially written or losing rows it had.",
    ["crash_points", "schedules", "fault_sequences", "configurations"],
    "every crash point (between and inside evaluations, messages and file writes), repeated crashes, every checkpoint interval, process count, batch size and set of failing samples",
    "Tests never kill a run; the outcome depends on the exact point of interruption.",
    [CLI, CORE],
    [("checkpoint", CLI + ":save_checkpoint"), ("resume", CLI + ":load_checkpoint"), ("final write", CLI + ":write_df")],
    [("checkpoint.parquet", "rows completed so far", CLI), ("results file", "final rows", CLI)],
    ["files on disk after the interruption, calls of the waveform generator in the rerun, final output"])
add("P21", "Postprocessing results are ordered, isolated per sample and correctly summarised",
    "The in-process postprocessing returns one result per requested sample in the requested order for any number of jobs; a sample succeeds with exactly the values a direct measurement gives, or fails with its own error message without affecting others. Summaries count and list successes in order, and the common frequency range is the intersection of the successful samples' ranges; sample selections given as text mean what is documented. The values of an injection are those of a direct measurement of its waveform, histograms count exactly the successful values (or those of the posterior's own columns), and a command line with missing or conflicting references, malformed options, an unusable generator or an unknown posterior is refused before anything is evaluated or written.",
    ["inputs", "configurations", "schedules"],
    "every list of samples (any order, repeats), every set of failing samples and kind of failure, any number of jobs, every selection text",
    "There is no baseline test of this layer that varies failures, order or concurrency.",
    [CORE, PP, CLI],
    [("one sample", CORE + ":postprocess_sample"), ("ordered map", PP + ":postprocess"), ("summary", CORE + ":get_summary"), ("selection text", CLI + ":parse_samples")],
    [("postprocess_result", "results in request order", PP)],
    ["returned results, summaries, parsed selections"])
add("P22", "The frame in which precessing modes are given does not matter",
    "For precessing systems, modes given in the inertial frame, in any representation and also for the quasicircular data, give the result that the same modes rotated to the coprecessing frame give; a fixed rotation of the inertial frame changes nothing, also when it tilts the orbit by more than a right angle (as long as the orbital axis stays more than about 10 degrees away from the direction opposite to z, where the frame finder of the scri package is singular). The (2,-2) mode, and in the inertial frame all l=2 modes, are required; for identical symmetric modes a precessing measurement equals the nonprecessing one.",
    ["inputs", "configurations"],
    "every representation, with and without quasicircular data, every method, every fixed or time-dependent rotation of the frame",
    "The precessing tests need data that is not available and cover one representation.",
    [E, LD],
    [("rotation", E + ":transform_inertial_to_coprecessing"), ("coprecessing modes", LD + ":get_coprecessing_data_dict"), ("combination", E + ":get_amp_phase_omega_gw")],
    [("frame", "frame of the data in use", E)], ["values or error of the call"])
add("P23", "Loaded waveforms satisfy the contract measurements rely on",
    "A waveform loaded for given parameters has increasing times (uniform at the requested step, except for EOB files and EMRI files without a requested step, which keep the file's times) with the merger, the largest total amplitude, at zero, every requested mode with the same length as the times, (2,2) phase increasing up to the merger, and values equal to those of the source, less exactly the junk asked for at the start. When requested it comes with quasicircular data of the same masses that starts no later and reaches the merger, and with the source's parameters. Options not supported by the chosen source, missing required options, an unknown source, or a missing file are errors, and equal requests give equal data without changing the caller's options.",
    ["inputs", "configurations"],
    "every source available offline, parameter set, option and combination of requested pieces",
    "Tests load one or two fixed parameter sets.",
    [LD],
    [("dispatch", LD + ":load_waveform"), ("LAL source", LD + ":load_LAL_waveform"), ("quasicircular companion", LD + ":load_LAL_waveform")],
    [("dataDict", "loaded waveform", LD)], ["returned dictionary or error"])
add("P24", "Quasicircular data is aligned at merger and never extrapolated",
    "Residual data at every analysed time is the eccentric value minus the quasicircular value at the same time to merger, whatever the time origins, sampling and lengths of the two waveforms. A quasicircular waveform starting later than the eccentric one or ending before the merger is rejected, and so is a reference time beyond its end.",
    ["inputs", "configurations"],
    "every relative offset of origins, start, end and sampling of the two waveforms, and every reference time",
    "Tests use pairs generated with the same origin and adequate length.",
    [E, U],
    [("residuals", E + ":compute_res_amp_gw_and_res_omega_gw"), ("interpolation", U + ":interpolate")],
    [("res_amp_gw, res_omega_gw", "residuals", E), ("t_zeroecc_shifted", "aligned times", E)],
    ["residual arrays of the returned object, values or error"])
add("P25", "Method comparison covers exactly the common times",
    "The comparison of two measurements on the same reference times returns exactly the reference times inside both admissible ranges and any further limits given (the latest limit excluded), with each measurement's own values there. Errors are the absolute differences, angles differing by a full turn counting as equal, and disjoint limits or different reference times are errors.",
    ["inputs"],
    "every pair of admissible ranges, further limits and relative phase of the two mean anomalies",
    "The function has no baseline test.",
    [CM], [("common window", CM + ":compute_errors_between_methods")],
    [("tref_out", "times of each measurement", CM)], ["returned tuple or error"])
add("P26", "Warnings about the extrema and the eccentricity are true and complete",
    "With debug_level 1 a measurement warns exactly when the pericenters and apocenters used differ in number by two or more or do not alternate, when two neighbouring extrema of a kind are less than half an orbit apart (orbital phase pi) or their distance is closer to pi than to 2*pi, when such a distance exceeds 1.5 times the one before, and when more than half of the pericenters or apocenters found were not used; the times named are those of the second extremum of each such pair. From debug_level 0 on it warns exactly when the eccentricity increases at some sample of the measurable range, naming the first and the last such time, and when a returned eccentricity is negative. The derivatives of eccentricity that can be queried are those of the measured eccentricity as a function of time.",
    ["inputs", "configurations"],
    "every layout of extrema and gaps, every trend of the eccentricity, every request and debug level",
    "Tests never look at warnings; a missing or false one needs a particular layout or trend (for example, an increase at the last sample only).",
    [E],
    [("separation", E + ":check_extrema_separation"), ("alternation", E + ":check_pericenters_and_apocenters_appear_alternately"), ("dropped", E + ":check_if_dropped_too_many_extrema"), ("trend", E + ":check_monotonicity_and_convexity"), ("derivative", E + ":derivative_of_eccentricity")],
    [("orb_phase_diff_at_pericenters", "distances", E), ("decc_dt_for_checks", "derivative at the samples", E)], ["warnings and queried derivatives"])
add("P27", "Figures show the measured quantities, each once and where it belongs",
    "Every plot method draws exactly the curves it documents, with the values of the measurement: eccentricity, its derivative (with a zero line) and mean anomaly over the measurable range; frequency, amplitude, residuals and the searched data with pericenters and apocenters each at their own places, the envelopes through them, the average frequency, and the ratios of phase differences at the extrema they belong to; a line at the reference time when there is a single one. This holds for every method and option, and whatever was queried or drawn before. Labels name the right kind of extrema, the shown range contains the data, given axes are used and the documented objects are returned. The diagnostic figure holds each documented panel once, residual panels included whenever quasicircular data was given in whatever representation.",
    ["inputs", "configurations", "histories"],
    "every method, option set, reference and representation of the data, every order of drawing and querying",
    "Tests only check that plotting does not fail; a curve of another quantity, stale data or a missing panel draws without error.",
    [E, "gw_eccentricity/plot_settings.py"],
    [("panels", E + ":make_diagnostic_plots"), ("curves", E + ":plot_data_used_for_finding_extrema"), ("ratios", E + ":plot_phase_diff_ratio_between_extrema"), ("averages", E + ":plot_omega_gw_average"), ("envelopes", E + ":plot_omega_gw")],
    [("decc_dt_for_checks", "drawn derivative", E), ("omega_gw_average", "drawn average", E), ("orb_phase_diff_ratio_at_pericenters", "drawn ratios", E)], ["the lines on the returned figures"])
add("P28", "Derivatives, peaks and interpolants are exact where they claim to be",
    "The frequency derived from a phase is, at every sample including the first and last two, the slope of the quartic through the five closest samples, so it is exact for phases that are polynomials up to degree four. The merger is the vertex of the least-squares parabola through the five samples around the largest total amplitude (all modes, first such sample, window moved inwards at the ends). Interpolants pass through the data; a spline of order k reproduces polynomials up to degree min(k, points - 1); the monotonic interpolant never leaves the range of the two neighbouring values. Points that do not increase, fewer than two points, lists of different lengths, and new points outside the data are refused unless extrapolation was asked for.",
    ["inputs", "configurations"],
    "every data set, sampling, order, weights, point asked for and set of modes",
    "A test samples smooth long waveforms, where a wrong end stencil, window, order or a silent extrapolation stays below its tolerance.",
    ["gw_eccentricity/utils.py", E],
    [("derivative", "gw_eccentricity/utils.py:time_deriv_4thOrder"), ("peak", "gw_eccentricity/utils.py:peak_time_via_quadratic_fit"), ("total amplitude", "gw_eccentricity/utils.py:amplitude_using_all_modes"), ("interpolation", "gw_eccentricity/utils.py:interpolate"), ("interpolant", "gw_eccentricity/utils.py:get_interpolant")],
    [("t_merger", "merger time of a measurement", E), ("omega_gw", "frequency of a measurement", E)], ["return values of the functions; t_merger and omega_gw of a measurement"])
add("P29", "Options mean what is documented and left-out ones have the defaults",
    "An option that is left out, at any level (arguments, extra_kwargs, and the dictionaries nested in it), has exactly its documented default, key by key: giving some options never changes the meaning of others, and giving a documented default explicitly, or an empty dictionary, changes no result. An option that is given is the one used: the options of the extrema finder select among the local maxima and minima of the searched data as documented for scipy's find_peaks (None meaning no condition; the default width is a quarter of the samples between two orbits and one orbit before the merger), the order of the splines through the extrema and through the average frequency is the one asked for, and apocenters taken midway between pericenters are exactly there.",
    ["inputs", "configurations"],
    "every subset of options at every level, their values, every method and waveform",
    "A test sets one or two options at a time and compares within loose tolerances, so an option that is ignored, overridden, merged wrongly with others or has another default stays unseen.",
    ["gw_eccentricity/utils.py", E, "gw_eccentricity/eccDefinitionUsingAmplitude.py", "gw_eccentricity/gw_eccentricity.py"],
    [("merging of options", "gw_eccentricity/utils.py:check_kwargs_and_set_defaults"), ("defaults", E + ":get_default_extra_kwargs"), ("finder defaults", E + ":get_default_extrema_finding_kwargs"), ("default width", E + ":get_width_for_peak_finder_from_phase_gw"), ("extrema finder", "gw_eccentricity/eccDefinitionUsingAmplitude.py:find_extrema"), ("midway apocenters", E + ":get_apocenters_from_pericenters")],
    [("extra_kwargs", "options in effect", E)], ["results of measurements; find_extrema; the envelopes and the average frequency of a measurement"])
if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), max(len(p["title"]) for p in P))
