----------------------------- MODULE JRefTime ------------------------------
(* Conformance of recorded time-domain measurements to RefSelect (P03).      *)
EXTENDS Judge, RefSelect

Turn == 628318531     \* 2 pi at 10^-8
Circ(a, b) == LET d == IF a > b THEN a - b ELSE b - a
              IN IF Turn - d < d THEN Turn - d ELSE d
Dist(a, b) == IF a > b THEN a - b ELSE b - a
Tol == 3

Verdict(r) ==
    LET exp == TimeAnswer(r.req, r.peri, r.apo) IN
    IF exp = <<>>
    THEN {c \in {"empty-must-fail"} : r.outcome = "ok"}
    ELSE IF r.outcome # "ok" THEN {"admissible-must-succeed"}
    ELSE {c \in {"selection", "lengths", "shape", "finite", "ecc-pointwise", "ano-pointwise"} :
          \/ c = "selection" /\ r.out # exp
          \/ c = "lengths" /\ ~(Len(r.ecc) = Len(r.out) /\ Len(r.ano) = Len(r.out))
          \/ c = "shape" /\ ~(\A i \in DOMAIN r.ndims : r.ndims[i] = r.reqndim)
          \/ c = "finite" /\ ~r.finite
          \* r.alone[x]: result of requesting only that time
          \/ c = "ecc-pointwise" /\ \E i \in DOMAIN r.out :
                /\ i <= Len(r.ecc) /\ i <= Len(r.ecc1)
                /\ Dist(r.ecc[i], r.ecc1[i]) > Tol
          \/ c = "ano-pointwise" /\ \E i \in DOMAIN r.out :
                /\ i <= Len(r.ano) /\ i <= Len(r.ano1)
                /\ Circ(r.ano[i], r.ano1[i]) > Tol}
=============================================================================
