------------------------------- MODULE JUnits -------------------------------
(* Conformance of pairs <<request, transformed request>> to Units (P14).     *)
(* got1, got2: both gave values; cnt: 0 same extrema counts, 1 they differ   *)
(* by one marginal extremum at an edge of the data, 2 otherwise; dext:       *)
(* largest shift of an extremum (samples); de, dl, dref: differences of      *)
(* eccentricity, mean anomaly and of the returned references transformed     *)
(* back (1e-9).  unit: the unit of time was changed: then iterative rational *)
(* fits (rat) agree to their own absolute tolerance only, and may choose     *)
(* other degrees (degrees); rounding makes them differ a little in any case. *)
EXTENDS Judge
LOCAL U == INSTANCE Units WITH Levels <- {}, K <- 0, MaxOps <- 0, Emit <- FALSE, t0 <- 0, u <- 1, a <- <<>>, p <- <<>>, rep <- "", ref <- 0, ops <- <<>>, first <- <<>>
Loose(r) == r.rat /\ r.unit
Ecc(r) == IF r.cnt = 1 THEN 10000000 ELSE IF r.dext > 0 THEN 5000000 ELSE IF r.degrees THEN 10000000 ELSE IF ~r.rat THEN 1000 ELSE IF r.unit THEN 1000000 ELSE 200000
Ano(r) == IF r.dext > 0 THEN 100000000 ELSE IF (Loose(r) \/ r.degrees \/ r.cnt = 1) /\ r.fd THEN 50000000 ELSE IF r.rat /\ r.fd THEN 5000000 ELSE 1000
Verdict(r) ==
    IF r.kind = "edges" THEN (IF r.edge * 30 > r.n THEN {"edges-often-differ"} ELSE {})
    ELSE IF r.got1 # r.got2 THEN {"fails-in-one-unit"}
    ELSE IF ~r.got1 THEN {}
    ELSE (IF r.cnt = 2 \/ r.dext > (IF r.fits THEN 1 ELSE 0) THEN {"other-extrema"} ELSE {})
         \cup (IF r.de > Ecc(r) THEN {"other-eccentricity"} ELSE {})
         \cup (IF r.dl > Ano(r) THEN {"other-anomaly"} ELSE {})
         \cup (IF r.dref > 1000 THEN {"references-not-transformed"} ELSE {})
=============================================================================
