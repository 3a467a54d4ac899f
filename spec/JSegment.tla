------------------------------ MODULE JSegment ------------------------------
(* Conformance of recorded measurements with use_only_these_many_orbits to   *)
(* Segment (P13).  Phases are in 1/10000 orbit.  i0..i1 are the analysed     *)
(* samples of len; seg those for permuted points and another time origin;    *)
(* dom "t" or "f" (reference points placed through the average frequency:    *)
(* their position is only estimated when the stretch is chosen).             *)
EXTENDS Judge
LOCAL S == INSTANCE Segment WITH Len0 <- 0, Gaps <- {}, Ns <- {}, Emit <- FALSE, ph <- <<>>, lo <- 0, hi <- 0,
                                 n <- 0, s <- 0, e <- 0, pc <- ""
U == 10000
Slack(r) == IF r.dom = "t" THEN 0 ELSE (3 * U) \div 2
Abs(x) == IF x < 0 THEN -x ELSE x
Short(r) == r.p1 - r.p0 < r.n - 2
Maybe(r) == Abs(r.p1 - r.p0 - r.n) <= 2
IsWhole(r) == r.i0 = 0 /\ r.i1 = r.len
(* values: rad 1e-8 and relative 1e-8 *)
TolAno(r) == IF r.dom = "t" THEN 2 ELSE 5000000
TolEcc(r) == IF r.dom = "t" THEN 3000000 ELSE 6000000
Verdict(r) ==
    IF r.got # "ok" THEN {"rejected"} ELSE
    LET z == r.g + Slack(r) IN
    {k \in {"not-contiguous", "reference-outside", "too-short", "reach-left", "reach-right", "too-long", "not-whole",
            "order-or-origin", "other-references", "anomaly", "eccentricity"} :
     \/ k = "not-contiguous" /\ ~r.slice
     \/ k = "reference-outside" /\ ~S!Contains(r.ps, r.pe, r.pl, r.pr, z)
     \/ k = "too-short" /\ ~S!LongEnough(r.p0, r.p1, r.ps, r.pe, r.n, r.g)
     \/ k = "reach-left" /\ ~S!ReachLeft(r.p0, r.ps, r.pl, r.n, z)
     \/ k = "reach-right" /\ ~S!ReachRight(r.p1 - r.g, r.pe, r.pr, r.n, z)
     \/ k = "too-long" /\ ~Short(r) /\ ~Maybe(r) /\ ~S!NotTooLong(r.p0, r.p1, r.ps, r.pe, r.pl, r.pr, r.n, U, z)
     \/ k = "not-whole" /\ Short(r) /\ ~IsWhole(r)
     \/ k = "order-or-origin" /\ \E i \in 1..Len(r.seg) : \/ Abs(r.seg[i][1] - r.i0) > (IF r.dom = "t" THEN 0 ELSE 2)
                                                         \/ Abs(r.seg[i][2] - r.i1) > (IF r.dom = "t" THEN 0 ELSE 2)
     \/ k = "other-references" /\ r.val /\ ~r.same
     \/ k = "anomaly" /\ r.val /\ r.dano > TolAno(r)
     \/ k = "eccentricity" /\ r.val /\ r.decc > TolEcc(r)}
=============================================================================
