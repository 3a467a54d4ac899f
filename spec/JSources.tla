------------------------------ MODULE JSources ------------------------------
(* Conformance of load requests to Sources (P23).  Facts about the data that *)
(* came back: n samples, lens the lengths of the modes, grid the unevenness  *)
(* of the steps and dt the deviation from the step asked for (1e-6, -1: as   *)
(* in the file), peak the time of the largest amplitude and zfirst the start *)
(* of the companion relative to the data (1/1000 samples), zpeak the end of  *)
(* the companion, back the steps before the merger where the phase does not  *)
(* grow, err the difference to the data in the file (1e-6), junk the         *)
(* deviation of the part removed (1/1000 orbit), mass the deviation of the   *)
(* companion's amplitude from the leading order for these masses (1/1000),   *)
(* grow the distance from time zero to the largest amplitude of data whose   *)
(* amplitude still grows at the end (1/1000 samples).                        *)
EXTENDS Judge
LOCAL S == INSTANCE Sources WITH Peak <- 1, Origins <- {}, Junks <- {}, Guesses <- {}, Pad <- 0, Emit <- FALSE,
                                 pc <- "", t <- <<>>, modes <- <<>>, w <- 0, z <- <<>>
Set(s) == {s[i] : i \in 1..Len(s)}
Want(r) == Set(r.want)
Ok(r) == r.values /\ S!Accepted(r.source, Set(r.opts), Set(r.given), Want(r), r.memory, Set(r.present))
All(s, n) == \A i \in 1..Len(s) : s[i] = n
Verdict(r) ==
    IF Ok(r) # r.got THEN (IF r.got THEN {"accepts-invalid"} ELSE {"refuses-valid"})
    ELSE IF ~r.got THEN {}
    ELSE (IF Set(r.keys) # {"t", "hlm"} \cup (IF "zero" \in Want(r) THEN {"t_zeroecc", "hlm_zeroecc"} ELSE {})
                           \cup (IF "params" \in Want(r) THEN {"params_dict"} ELSE {}) \cup (IF "geodesic" \in Want(r) THEN {"e_geodesic"} ELSE {})
          THEN {"other-pieces"} ELSE {})
         \cup (IF Set(r.modes) # Set(r.asked) THEN {"other-modes"} ELSE {})
         \cup (IF ~All(r.lens, r.n) \/ ~All(r.zlens, r.zn) THEN {"lengths-differ"} ELSE {})
         \cup (IF r.grid > 10 \/ r.dt > 100 \/ r.falling > 0 THEN {"times-not-uniform"} ELSE {})
         \cup (IF r.peak > 1000 THEN {"merger-not-at-zero"} ELSE {})
         \cup (IF r.grow > 1000 THEN {"growing-amplitude"} ELSE {})
         \cup (IF r.back > 0 \/ r.zback > 0 THEN {"phase-not-increasing"} ELSE {})
         \cup (IF "zero" \in Want(r) /\ (r.zfirst > 0 \/ r.zpeak < 0) THEN {"companion-too-short"} ELSE {})
         \cup (IF r.mass > 150 \/ r.waves > 0 THEN {"companion-of-another-system"} ELSE {})
         \cup (IF r.err > 20000 THEN {"other-data"} ELSE {})
         \cup (IF r.junk > 60 THEN {"junk-removed-wrongly"} ELSE {})
         \cup (IF ~r.params THEN {"other-parameters"} ELSE {})
         \cup (IF ~r.again THEN {"not-repeatable"} ELSE {})
         \cup (IF ~r.same THEN {"caller-changed"} ELSE {})
         \cup (IF ~r.usable THEN {"not-measurable"} ELSE {})
=============================================================================
