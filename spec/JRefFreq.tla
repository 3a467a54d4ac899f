----------------------------- MODULE JRefFreq ------------------------------
(* Conformance of recorded frequency-domain measurements (P04).              *)
(* Selection: ranks.  Mapping, kind "exact": the selected average is         *)
(* W0 + S t by construction, so the time of a frequency f (W = 2 pi f) is    *)
(* (W - W0)/S, and the mean anomaly there must be Turn (t - a)/(b - a) and   *)
(* the eccentricity obey the defining relation with the two envelopes        *)
(* A + B t and C + D t (numbers: Fixed, 16 decimals).                        *)
(* kind "bracket": f lies between the averages at two consecutive samples,   *)
(* whose own (time-domain) results are given.                                *)
EXTENDS Judge, RefSelect, Fixed

Turn == 628318531
Circ(a, b) == LET d == IF a > b THEN a - b ELSE b - a
              IN IF Turn - d < d THEN Turn - d ELSE d
Dist(a, b) == IF a > b THEN a - b ELSE b - a
Tol == 20

\* --- exact mapping, all Fixed numbers scaled by 10^16 ----------------------
\* m*S*(b-a) = 2pi*((W - W0) - S*a)  modulo 2pi*S*(b-a), tolerance tm
AnoExact(q, r) ==
    LET Sba == Mul(r.S, Sub(q.b, q.a))
        lhs == Mul(q.m, Sba)
        rhs == Mul(r.TwoPi, Sub(Shift(Sub(q.W, r.W0), 4), Mul(r.S, q.a)))
        d   == Abs(Sub(lhs, rhs))
        tol == Mul(r.tolm, Sba)
        full == Mul(r.TwoPi, Sba)
    IN Leq(d, tol) \/ Leq(Abs(Sub(d, full)), tol)

\* (3e - e^3)(wp + wa) = 2(wp - wa), where S*wp = A*S + B*(W - W0)
EccExact(q, r) ==
    LET dW == Sub(q.W, r.W0)
        wp == Add(Mul(r.A, r.S), Mul(r.B, dW))
        wa == Add(Mul(r.C, r.S), Mul(r.D, dW))
        one == Int2F(1)
        e3 == Mul(q.e, Mul(q.e, q.e))                           \* 48 decimals
        k  == Sub(Shift(Mul(Int2F(3), q.e), 8), e3)
        lhs == Mul(k, Add(wp, wa))
        rhs == Shift(Mul(Int2F(2), Sub(wp, wa)), 12)
    IN Leq(Abs(Sub(lhs, rhs)), Mul(Shift(r.tole, 8), Add(wp, wa)))

Between(x, lo, hi) == LET a == IF lo < hi THEN lo ELSE hi
                          b == IF lo < hi THEN hi ELSE lo
                          s == Tol + (b - a) \div 4
                      IN a - s <= x /\ x <= b + s
\* mean anomaly advances from mL to mR (both mod Turn)
BetweenAno(x, mL, mR) == LET w == (mR - mL + Turn) % Turn
                             s == Tol + w \div 4
                             y == (x - mL + s + Turn) % Turn
                         IN y <= w + 2 * s

Verdict(r) ==
    LET must == FreqMust(r.req, r.lo, r.hi)
        may  == FreqMay(r.req, r.lo, r.hi)
    IN
    IF r.outcome # "ok"
    THEN {c \in {"admissible-must-succeed"} : must # <<>>}
    ELSE {c \in {"empty-must-fail", "selection", "lengths", "shape", "finite", "bounds-stable",
                 "ecc-pointwise", "ano-pointwise", "maps-to-time(ano)", "maps-to-time(ecc)"} :
          \/ c = "empty-must-fail" /\ may = <<>>
          \/ c = "selection" /\ ~(r.out = must \/ r.out = may)
          \/ c = "lengths" /\ ~(Len(r.ecc) = Len(r.out) /\ Len(r.ano) = Len(r.out))
          \/ c = "shape" /\ ~(\A i \in DOMAIN r.ndims : r.ndims[i] = r.reqndim)
          \/ c = "finite" /\ ~r.finite
          \/ c = "bounds-stable" /\ ~(r.lo2 = r.lo /\ r.hi2 = r.hi)
          \/ c = "ecc-pointwise" /\ \E i \in DOMAIN r.out :
                i <= Len(r.ecc) /\ i <= Len(r.ecc1) /\ Dist(r.ecc[i], r.ecc1[i]) > Tol
          \/ c = "ano-pointwise" /\ \E i \in DOMAIN r.out :
                i <= Len(r.ano) /\ i <= Len(r.ano1) /\ Circ(r.ano[i], r.ano1[i]) > Tol
          \/ c = "maps-to-time(ano)" /\ \E i \in DOMAIN r.q :
                IF r.kind = "exact" THEN ~AnoExact(r.q[i], r)
                ELSE ~BetweenAno(r.q[i].m, r.q[i].mL, r.q[i].mR)
          \/ c = "maps-to-time(ecc)" /\ \E i \in DOMAIN r.q :
                IF r.kind = "exact" THEN ~EccExact(r.q[i], r)
                ELSE ~Between(r.q[i].e, r.q[i].eL, r.q[i].eR)}
=============================================================================
