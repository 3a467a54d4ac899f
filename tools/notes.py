NA = {}
TECH["P03"] = "TLA+ (TLC): exhaustive selection model; TLC-generated requests replayed; recorded measurements judged by TLC"
NOTE["P03"] = "exhaustive over 12 position classes up to length 3 in the model; sampled configurations in the code"
TECH["P04"] = "TLA+ (TLC): selection model, generated requests replayed, exact average law (bignum) and bracketing judged by TLC on recorded runs"
NOTE["P04"] = "selection exhaustive to length 3 over 10 classes in the model; mapping exact for averages linear in time, to a quarter sample otherwise"
TECH["P05"] = "TLA+ (TLC): uniform-advance automaton, all gap patterns replayed, recorded anomalies judged by TLC in exact fixed point"
NOTE["P05"] = "gap patterns exhaustive to 5-6 pericenters in the model; random systems and all six methods in the code, 1e-9 rad"
TECH["P06"] = "TLA+ (TLC): defining relation on a grid (uniqueness, monotonicity), recorded eccentricities judged by TLC in exact fixed point"
NOTE["P06"] = "envelopes are polynomials the curve reproduces exactly; cubic-spline oracle for the six methods"
TECH["P07"] = "TLA+ (TLC): cleaning state machine, exhaustive gap patterns replayed, kept extrema of recorded runs judged by TLC"
NOTE["P07"] = "exhaustive patterns up to 8 extrema of a kind, random patterns up to 30; thresholds hit exactly are excluded"
TECH["P08"] = "TLA+ (TLC): two waveforms scanned in lockstep (non-interference), recorded truncations and modified-tail runs judged by TLC"
NOTE["P08"] = "design model exhaustive to 6 samples; six methods, precessing, modified tails (amplitude, frequency, ringdown, shortened) in the code"
TECH["P01"] = "TLA+ (TLC): ownership/history model (with a mutant that must fail), generated and random histories replayed, TLC walks each recorded history against the model"
NOTE["P01"] = "histories exhaustive to length 3 over abstract requests; 44 concrete requests, 13 kinds of queries and plots, all ordered pairs in the thorough tier"
TECH["P02"] = "TLA+ (TLC): response function of the session model, recorded histories walked by TLC, responses identified with those of fresh processes"
NOTE["P02"] = "same histories as P01; responses compared to 1e-9 with a fresh process' responses"
TECH["P17"] = "TLA+ (TLC): merge of midpoint averages as a state machine, exact (bignum) average law, range and error cases of recorded runs judged by TLC"
NOTE["P17"] = "design model exhaustive on small layouts; averages exact in fixed point, envelopes by a cubic-spline oracle, 1e-9"
TECH["P25"] = "TLA+ (TLC): selection of common times as a state machine, recorded comparisons judged by TLC"
NOTE["P25"] = "all order types of ranges, limits and reference times in the model; concrete comparisons with full-turn offsets in the code"
TECH["P09"] = "TLA+ (TLC): acceptance rule of waveform dictionaries over all key sets, every TLC-generated dictionary replayed, verdicts and equivalence classes judged by TLC"
NOTE["P09"] = "key combinations exhaustive in the model; six methods, both averages, representations compared to 1e-8 in the code"
TECH["P10"] = "TLA+ (TLC): validation automaton of requests; TLC-generated request vectors replayed and judged by TLC"
NOTE["P10"] = "all single and paired deviations from valid requests in the model; concrete option values sampled in the code"
TECH["P11"] = "TLA+ (TLC): fallback decision automaton, exhaustive cases replayed and judged by TLC"
NOTE["P11"] = "all combinations of counts, length class and switch; concrete waveforms with controlled extrema and real methods"
TECH["P12"] = "TLA+ (TLC): self-composition of one message script at all verbosity levels, recorded runs at every level judged by TLC"
NOTE["P12"] = "scripts exhaustive to 5-7 events in the model; scenarios covering about 38 kinds of messages in the code"
TECH["P13"] = "TLA+ (TLC): outward walk selecting the stretch (reach, length, containment), TLC-generated configurations replayed, recorded selections judged by TLC"
NOTE["P13"] = "all small phase layouts in the model; six methods on clean inspirals in the code; requests by frequency with 1.5 orbits of slack"
TECH["P24"] = "TLA+ (TLC): alignment and limit checks as a state machine on integer grids, generated cases replayed, recorded residuals judged by TLC in exact integer arithmetic"
NOTE["P24"] = "origins, samplings, starts and ends enumerated in the model; quadratic reference data a spline reproduces exactly; limits met exactly are excluded"
TECH["P18"] = "TLA+ (TLC): filter decision and data provenance as a state machine, all generated configurations replayed on synthetic precessing inspirals, recorded data judged by TLC"
NOTE["P18"] = "asymmetry levels on both sides of three thresholds, every option combination; asymmetries within 20% of the threshold are not judged"
TECH["P19"] = "TLA+ (TLC): master/worker protocol over buffered and rendezvous channels, exhaustively checked for exactly-once and termination; TLC-generated schedules replayed on the real CLI under a deterministic scheduler, recorded jobs judged by TLC"
NOTE["P19"] = "up to 4 processes, 5 samples, batches of 3 in the model (up to 8 processes and 12 samples in the code); all interleavings in the model, sampled ones in the code"
TECH["P20"] = "TLA+ (TLC): same protocol with crashes at every point, torn writes and reruns; TLC-generated crash histories and enumerated kill points replayed on the real CLI, files and evaluations judged by TLC"
NOTE["P20"] = "up to 2 crashes exhaustively in the model; in the code the job is killed at executed lines, messages, evaluations, byte counts of written files and renames, up to 4 times"
TECH["P21"] = "TLA+ (TLC): ordered parallel map, summaries and selection texts as a state machine; TLC-generated completion orders replayed on the real layer, recorded results judged by TLC"
NOTE["P21"] = "all requests, failing sets and completion orders up to 4 samples and 4 jobs in the model; waveform-level failures of six kinds in the code"
TECH["P22"] = "TLA+ (TLC): per-tag frame transformation with frame group, required modes and dropped representations as a state machine; TLC-generated mode sets replayed, pairs of measurements of one system judged by TLC"
NOTE["P22"] = "all mode sets, representations and small rotation histories in the model; in the code precessing, wobbling and fixed rotations incl. tilts beyond a right angle, compared to independently rotated modes"
TECH["P15"] = "TLA+ (TLC): the degree search with nondeterministic answers as a state machine, TLC-generated searches replayed on the real class with forced answers, searches on random data judged by TLC against all outcomes the answers allow"
NOTE["P15"] = "all answer patterns up to 16 extrema and starting degrees 1-5 in the model; up to 66 extrema, noise levels and seven shapes in the code; answers too close to call are left open; fits compared to an independent implementation where well conditioned"
TECH["P14"] = "TLA+ (TLC): measurement on integer waveforms under sequences of shifts, units, scales and phase rotations (self-composition), TLC-generated words applied to real requests of every method, differences judged by TLC"
NOTE["P14"] = "all small waveforms and words of up to 3 transformations in the model; six methods, magnitudes from 1e-21 to 1e7 in the code; iterative rational fits agree only to their own absolute tolerance when the unit of time changes"
TECH["P16"] = "TLA+ (TLC): marching search over alternating extrema (no skip, no repeat, stops at the end) as a state machine; generated layouts replayed on clean inspirals whose true pericenters are known; reported extrema judged by TLC"
NOTE["P16"] = "all small layouts, neighbourhood widths and starting positions in the model; six methods on post-Newtonian inspirals with eccentricities, alignments, samplings and spins varied in the code; a failure counts only when there are enough periods for the method"
TECH["P23"] = "TLA+ (TLC): acceptance rule of load requests and the junk/shift/lengthen/cut pipeline as a state machine; every TLC-generated request (source, pieces, fault) replayed on generated files of all formats, loaded data judged by TLC against the raw data"
NOTE["P23"] = "all sources, piece combinations and single faults in the model; LAL approximants without data files and generated SXS (both formats), LVCNR (both readers), EOB and EMRI files in the code; two library calls that need data files not present here are replaced by stand-ins"
TECH["P26"] = "TLA+ (TLC): one-pass scan of merged extrema proved equal to the declarative warnings over all layouts; TLC-generated layouts and trends replayed, recorded warnings judged by TLC"
NOTE["P26"] = "layouts exhaustive to 3-4 extrema of a kind over 4 gaps in the model; longer lists, own limits and eccentricity trends sampled in the code"
TECH["P27"] = "TLA+ (TLC): machine of drawing and querying with caches proved to draw the declared curves; TLC-generated sequences replayed, lines of the returned figures judged by TLC"
NOTE["P27"] = "sequences of up to three operations exhaustive in the model; options, methods and representations sampled; colours, help texts and layout not judged"
TECH["P28"] = "TLA+ (TLC): one-pass stencil and running maximum proved equal to the quartic slope and least-squares vertex in exact arithmetic; generated data replayed, results judged by TLC"
NOTE["P28"] = "all sequences of 5 to 7 small integers and shifted powers in the model; longer data, splines and whole measurements sampled in the code"
TECH["P29"] = "TLA+ (TLC): key-by-key completion of options and the peak finder proved equal to their declarations; TLC-generated option patterns replayed as pairs of requests, integer data through the real finder, all judged by TLC"
NOTE["P29"] = "all option patterns of three keys and all sequences of up to 7 small integers in the model; longer data, whole measurements, splines sampled; a default without effect on the waveforms measured is not noticed"
