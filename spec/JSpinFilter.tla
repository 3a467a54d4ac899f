----------------------------- MODULE JSpinFilter ----------------------------
(* Conformance of recorded precessing measurements to SpinFilter (P18).  Per *)
(* data kind: same (the data used is the plain combination), isfilt (it is   *)
(* the recorded filtered data), orig (the recorded original is the plain     *)
(* combination), len (all lengths are those of the times).  known: the       *)
(* asymmetry is that of the design, away from the threshold.  late: the data *)
(* from the merger on is the plain combination.                              *)
(* "effect" records: spin oscillations of known size were put into both      *)
(* modes; left: what differs from the data without them, in 1/1000 of them;  *)
(* lost: the same in 1/1000 of the eccentric oscillation (away from the ends *)
(* of the data, where any filter has edge effects).                          *)
EXTENDS Judge
LOCAL S == INSTANCE SpinFilter WITH Levels <- {}, Thrs <- {}, Emit <- FALSE, level <- 0, thr <- 0, src <- "", off <- FALSE,
                                    todo <- <<>>, orig <- <<>>, filt <- <<>>, used <- <<>>, phase <- "", first <- 0, pc <- ""
F(r, d) == S!Filtered(r.level, r.thr, r.src, r.off, d)
Effect(r) == {k \in {"spin-left", "eccentricity-lost", "not-filtered", "after-merger"} :
     \/ k = "not-filtered" /\ \E d \in S!Kinds : ~r.filtered[d]
     \/ k = "spin-left" /\ \E d \in S!Kinds : r.filtered[d] /\ r.left[d] > 250
     \/ k = "eccentricity-lost" /\ \E d \in S!Kinds : r.filtered[d] /\ r.lost[d] > 100
     \/ k = "after-merger" /\ ~r.late}
Verdict(r) ==
    IF r.got # "ok" THEN {"rejected"} ELSE
    IF r.kind = "effect" THEN Effect(r) ELSE
    {k \in {"amp-not-filtered", "amp-filtered", "omega-not-filtered", "omega-filtered", "disabled", "original-lost", "inconsistent",
            "length", "phase", "first-extrema", "after-merger"} :
     \/ k = "amp-not-filtered" /\ r.known /\ F(r, "amp") /\ r.same["amp"]
     \/ k = "amp-filtered" /\ r.known /\ ~F(r, "amp") /\ ~r.same["amp"]
     \/ k = "omega-not-filtered" /\ r.known /\ F(r, "omega") /\ r.same["omega"]
     \/ k = "omega-filtered" /\ r.known /\ ~F(r, "omega") /\ ~r.same["omega"]
     \/ k = "disabled" /\ r.off /\ (~r.same["amp"] \/ ~r.same["omega"])
     \/ k = "original-lost" /\ (~r.orig["amp"] \/ ~r.orig["omega"] \/ ~r.orig["phase"])
     \/ k = "inconsistent" /\ \E d \in S!Kinds : ~r.same[d] /\ ~r.isfilt[d]
     \/ k = "length" /\ ~r.len
     \/ k = "after-merger" /\ ~r.late
     \/ k = "phase" /\ (IF r.same["omega"] THEN ~r.phplain ELSE ~r.phint)
     \/ k = "first-extrema" /\ r.drop # (IF r.same["omega"] THEN 0 ELSE 1)}
=============================================================================
