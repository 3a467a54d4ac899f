------------------------------ MODULE JCompare -----------------------------
(* Conformance of recorded comparisons to Compare (P25).  Times are ranks;   *)
(* values are integers at 10^-8.                                             *)
EXTENDS Judge
LOCAL C == INSTANCE Compare WITH Pos <- {}, Emit <- FALSE, c <- 0
AbsI(x) == IF x < 0 THEN -x ELSE x
Tol == 6
O1(r) == [lo |-> r.lo1, hi |-> r.hi1]
O2(r) == [lo |-> r.lo2, hi |-> r.hi2]
Empty(r) == r.lo1 > r.hi2 \/ r.lo2 > r.hi1
Turn == 628318531
Diff(a, b) == LET d == AbsI(a - b) IN IF d > Turn \div 2 THEN Turn - d ELSE d

Verdict(r) ==
    LET exp == C!Common(r.req, O1(r), O2(r), r.tmin, r.tmax)
        dis == C!Disjoint(O1(r), O2(r), r.tmin, r.tmax)
    IN IF r.differentrefs \/ (dis /\ ~Empty(r))
       THEN IF r.outcome = "ok" THEN {"must-be-an-error"} ELSE {}
       ELSE IF Empty(r) /\ r.outcome # "ok" THEN {}
       ELSE IF r.outcome # "ok" THEN {"must-succeed"}
       ELSE IF r.out # exp THEN {"common-times"}
       ELSE IF \E f \in {r.e1, r.e2, r.m1, r.m2, r.de, r.dm, r.own1, r.own2, r.owm1, r.owm2} : Len(f) # Len(exp) THEN {"lengths"}
       ELSE {k \in {"own-values", "ecc-error", "ano-error"} :
             \/ k = "own-values" /\ (r.e1 # r.own1 \/ r.e2 # r.own2 \/ r.m1 # r.owm1 \/ r.m2 # r.owm2)
             \/ k = "ecc-error" /\ \E i \in DOMAIN exp : AbsI(r.de[i] - AbsI(r.e1[i] - r.e2[i])) > Tol
             \/ k = "ano-error" /\ \E i \in DOMAIN exp : AbsI(r.dm[i] - Diff(r.m1[i], r.m2[i])) > Tol}
=============================================================================
