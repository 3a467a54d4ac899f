------------------------------ MODULE Sources -------------------------------
(* Loading waveforms (P23).  A request names a source, options and pieces;   *)
(* it is refused unless the source is known, every option is one of the      *)
(* source's, what it requires is given and every file it needs exists.       *)
(* Otherwise the raw data (a time axis of ticks with arbitrary origin, the   *)
(* merger at tick Peak) lose the junk at their start and are moved so that   *)
(* the merger is at zero; a quasicircular companion is generated from a      *)
(* guessed starting frequency, made longer until it starts no later, cut to  *)
(* a little more than the data, and still reaches the merger.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Peak, Origins, Junks, Guesses, Pad, Emit

Known == {"LAL", "SXSCatalog", "SXSCatalog_old", "LVCNR", "LVCNR_hack", "EOB", "EMRI"}
SXS == {"SXSCatalog", "SXSCatalog_old"}
NR == SXS \cup {"LVCNR", "LVCNR_hack"}
(* pieces that can be requested, and the files a request needs               *)
Pieces(s) == CASE s = "LAL" -> {"zero"} [] s \in SXS \cup {"LVCNR", "LVCNR_hack"} -> {"zero", "params"}
               [] s = "EOB" -> {"zero"} [] s = "EMRI" -> {"zero", "geodesic"} [] OTHER -> {}
Options(s) ==
    CASE s = "LAL" -> {"approximant", "q", "chi1", "chi2", "ecc", "mean_ano", "Momega0", "deltaTOverM", "physicalUnits", "M", "D", "include_zero_ecc"}
      [] s \in SXS -> {"data_dir", "metadata_path", "deltaTOverM", "include_zero_ecc", "include_params_dict", "zero_ecc_approximant",
                       "num_orbits_to_remove_as_junk", "mode_array", "extrap_order"} \cup (IF s = "SXSCatalog" THEN {"keep_memory"} ELSE {})
      [] s \in {"LVCNR", "LVCNR_hack"} -> {"filepath", "deltaTOverM", "include_zero_ecc", "include_params_dict", "zero_ecc_approximant",
                       "num_orbits_to_remove_as_junk"} \cup (IF s = "LVCNR" THEN {"Momega0"} ELSE {})
      [] s = "EOB" -> {"filepath", "include_zero_ecc", "filepath_zero_ecc"}
      [] s = "EMRI" -> {"filepath", "include_zero_ecc", "filepath_zero_ecc", "start_time", "end_time", "deltaT", "include_geodesic_ecc"}
      [] OTHER -> {}
Required(s) == CASE s = "LAL" -> {"approximant", "q", "chi1", "chi2", "ecc", "mean_ano", "Momega0"}
                 [] s \in SXS -> {"data_dir"} [] s \in Known -> {"filepath"} [] OTHER -> {}
(* what the pieces requested need in addition                                *)
Needs(s, want) == Required(s) \cup (IF s = "EOB" /\ "zero" \in want THEN {"filepath_zero_ecc"} ELSE {})
Files(s, want, memory) ==
    CASE s = "LAL" -> {}
      [] s = "SXSCatalog" -> {"strain", "index"} \cup (IF want # {} \/ ~memory THEN {"metadata"} ELSE {})
      [] s = "SXSCatalog_old" -> {"strain"} \cup (IF want # {} THEN {"metadata"} ELSE {})
      [] s \in {"LVCNR", "LVCNR_hack"} -> {"strain"}
      [] s = "EOB" -> {"strain"} \cup (IF "zero" \in want THEN {"circular"} ELSE {})
      [] s = "EMRI" -> {"strain"} \cup (IF "zero" \in want THEN {"circular"} ELSE {}) \cup (IF "geodesic" \in want THEN {"geodesic"} ELSE {})
      [] OTHER -> {}
Accepted(s, opts, given, want, memory, present) ==
    /\ s \in Known /\ opts \subseteq Options(s) /\ Needs(s, want) \subseteq given
    /\ Files(s, want, memory) \subseteq present

(* faults put into otherwise valid requests, one at a time                   *)
Faults(s, want, memory) == {"none", "option"} \cup {"no-" \o f : f \in Files(s, want, memory)} \cup {"not-" \o o : o \in Needs(s, want)}
                           \cup {"foreign-" \o o : o \in UNION {Options(x) : x \in Known} \ Options(s)}
Valid(s, want) == want \subseteq Pieces(s)

VARIABLES pc, t, modes, w, z
vars == <<pc, t, modes, w, z>>
(* t: axis as <<first, last, merger>>; modes: number of samples per mode     *)
Len3(x) == x[2] - x[1] + 1
Longer(l) == -(2 * Peak) \div (l + 1)         \* where a companion of frequency level l starts
Init == /\ pc = "raw" /\ w \in Guesses /\ z = <<0, 0, 0>>
        /\ \E o \in Origins : t = <<o, o + Peak + 3, o + Peak>>
        /\ modes = [m \in {"22", "21"} |-> Peak + 4]
Junk == pc = "raw" /\ \E j \in Junks : /\ t' = <<t[1] + j, t[2], t[3]>> /\ modes' = [m \in DOMAIN modes |-> modes[m] - j]
                                       /\ pc' = "cut" /\ UNCHANGED <<w, z>>
Shift == pc = "cut" /\ t' = <<t[1] - t[3], t[2] - t[3], 0>> /\ pc' = "data" /\ UNCHANGED <<modes, w, z>>
Guess == pc = "data" /\ z' = <<Longer(w), 3, 0>> /\ pc' = "guess" /\ UNCHANGED <<t, modes, w>>
Lengthen == /\ pc = "guess" /\ z[1] > t[1] /\ w > 0
            /\ w' = w \div 2 /\ z' = <<Longer(w \div 2), 3, 0>> /\ UNCHANGED <<pc, t, modes>>
Cut == /\ pc = "guess" /\ z[1] <= t[1] /\ pc' = "done"
       /\ z' = <<IF t[1] - Pad < z[1] THEN z[1] ELSE t[1] - Pad, z[2], z[3]>> /\ UNCHANGED <<t, modes, w>>
Next == Junk \/ Shift \/ Guess \/ Lengthen \/ Cut
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Contract == pc \in {"data", "guess", "done"} => t[3] = 0 /\ t[1] < 0 /\ t[2] >= 0
SameLength == pc # "raw" => \A m \in DOMAIN modes : modes[m] = Len3(t)
Companion == pc = "done" => z[1] <= t[1] /\ z[2] >= 0
Completes == <>(pc = "done")
Emitted == (Emit /\ pc = "raw" /\ w = CHOOSE x \in Guesses : TRUE) =>
    \A s \in Known : \A x \in {y \in SUBSET {"zero", "params", "geodesic"} : Valid(s, y)} : \A k \in (IF s = "SXSCatalog" THEN BOOLEAN ELSE {TRUE}) :
        \A f \in Faults(s, x, k) : PrintT("@@" \o ToJson([source |-> s, zero |-> "zero" \in x, params |-> "params" \in x, geodesic |-> "geodesic" \in x, memory |-> k, fault |-> f]))
=============================================================================
