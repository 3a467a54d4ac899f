------------------------------ MODULE JExtrema ------------------------------
(* Conformance of reported extrema to Extrema (P16).  p, a: number of the    *)
(* true extremum closest to each reported one (pericenter k at radial phase  *)
(* k, apocenter k at k + 1/2); ip, ia: sample numbers; dp, da: distances to  *)
(* the true extrema, start/end: from the edges of the analysed part to the   *)
(* first/last of each kind, in 1/1000 radial periods; samp: one sample in    *)
(* the same unit; peak: distance in samples to the extremum of the searched  *)
(* data; ref: shift of refined extrema.  direct: the method uses the data    *)
(* themselves, whose trend moves extrema a little.  kind "short": fewer      *)
(* extrema than a window of the marching search needs (Reach in Extrema).    *)
EXTENDS Judge
LOCAL X == INSTANCE Extrema WITH Orbits <- {}, Sizes <- {}, Losses <- {}, Kinds <- {}, Eccs <- {}, Samplings <- {}, Starts <- {}, Lengths <- {}, Emit <- FALSE,
                                 n <- 0, m <- 0, lost <- 0, ref <- 0, list <- <<>>, extra <- <<>>, round <- 0, done <- FALSE
Small(s, b) == \A i \in 1..Len(s) : s[i] <= b
Dev(r) == (IF r.direct THEN 100 ELSE 25) + r.samp
Verdict(r) ==
    IF r.kind = "agree" THEN (IF r.diff > r.allowed THEN {"methods-disagree"} ELSE {})
    ELSE IF ~r.got THEN (IF r.kind = "short" THEN {} ELSE {"fails"})
    ELSE (IF ~Small(r.dp, Dev(r)) \/ ~Small(r.da, Dev(r)) THEN {"not-an-extremum"} ELSE {})
         \cup (IF ~X!Increasing(r.ip) \/ ~X!Increasing(r.ia) THEN {"not-in-order"} ELSE {})
         \cup (IF ~X!Consecutive(r.p) \/ ~X!Consecutive(r.a) THEN {"not-consecutive"} ELSE {})
         \cup (IF ~X!Alternating(r.p, r.a) THEN {"not-alternating"} ELSE {})
         \cup (IF ~Small(r.start, 1250) THEN {"misses-the-start"} ELSE {})
         \cup (IF r.kind # "short" /\ ~Small(r.end, r.late) THEN {"misses-the-end"} ELSE {})
         \cup (IF ~Small(r.peak, 1) THEN {"not-a-local-extremum"} ELSE {})
         \cup (IF ~Small(r.ref, 30 + r.samp) THEN {"badly-refined"} ELSE {})
=============================================================================
