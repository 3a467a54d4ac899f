----------------------------- MODULE Cleaning ------------------------------
(* Dropping of extra / missing / too close extrema (P07).                    *)
(* An extremum is a record [i |-> sample index, ph |-> orbital GW phase];    *)
(* Orbit: phase of one orbit (4 pi) in the unit of ph.                       *)
EXTENDS Integers, Sequences, FiniteSets

D(s, k) == s[k + 1].ph - s[k].ph                  \* gap k (1-based)
NGaps(s) == IF Len(s) = 0 THEN 0 ELSE Len(s) - 1
NRatios(s) == IF Len(s) < 2 THEN 0 ELSE Len(s) - 2
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x

\* ratio k = gap(k+1)/gap(k); the code counts ratios and gaps from 0
TooLarge(s) == {k \in 1..NRatios(s) : 2 * D(s, k + 1) > 3 * D(s, k)}
TooSmall(s) == {k \in 1..NRatios(s) : 3 * D(s, k + 1) < 2 * D(s, k)}

JumpEnd(s) ==
    LET L == TooLarge(s) IN
    IF L # {} /\ MinS(L) - 1 > NRatios(s) \div 2
    THEN SubSeq(s, 1, MinS(L) + 1) ELSE s
\* decided on the gaps before the end was cut
JumpStart(s, orig) ==
    LET S == TooSmall(orig) IN
    IF S # {} /\ MaxS(S) - 1 < NRatios(orig) \div 2
    THEN SelectSeq(s, LAMBDA x : x.i >= orig[MaxS(S) + 1].i) ELSE s
Jumps(s) == JumpStart(JumpEnd(s), s)

TooClose(s, Orbit) == {k \in 1..NGaps(s) : D(s, k) < Orbit}
CloseEnd(s, Orbit) ==
    LET C == TooClose(s, Orbit) IN
    IF C # {} /\ MinS(C) - 1 > NGaps(s) \div 2
    THEN SubSeq(s, 1, MinS(C)) ELSE s
CloseStart(s, orig, Orbit) ==
    LET C == TooClose(orig, Orbit) IN
    IF C # {} /\ MaxS(C) - 1 < NGaps(orig) \div 2
    THEN SelectSeq(s, LAMBDA x : x.i >= orig[MaxS(C) + 1].i) ELSE s
Close(s, Orbit) == CloseStart(CloseEnd(s, Orbit), s, Orbit)

\* at most one extremum beyond the outermost one of the other kind
EndExtra(s, o) ==
    LET x == SelectSeq(s, LAMBDA y : y.i > o[Len(o)].i)
    IN IF Len(x) > 1 THEN SelectSeq(s, LAMBDA y : y.i <= x[1].i) ELSE s
StartExtra(s, o) ==
    LET x == SelectSeq(s, LAMBDA y : y.i < o[1].i)
    IN IF Len(x) > 1 THEN SelectSeq(s, LAMBDA y : y.i >= x[Len(x)].i) ELSE s

Step(pc, p, a, Orbit) ==
    CASE pc = "jumpP"  -> [pc |-> "jumpA",  p |-> Jumps(p), a |-> a]
      [] pc = "jumpA"  -> [pc |-> "closeP", p |-> p, a |-> Jumps(a)]
      [] pc = "closeP" -> [pc |-> "closeA", p |-> Close(p, Orbit), a |-> a]
      [] pc = "closeA" -> [pc |-> "endP",   p |-> p, a |-> Close(a, Orbit)]
      [] pc = "endP"   -> [pc |-> "endA",   p |-> EndExtra(p, a), a |-> a]
      [] pc = "endA"   -> [pc |-> "startP", p |-> p, a |-> EndExtra(a, p)]
      [] pc = "startP" -> [pc |-> "startA", p |-> StartExtra(p, a), a |-> a]
      [] pc = "startA" -> [pc |-> "done",   p |-> p, a |-> StartExtra(a, p)]

RECURSIVE RunFrom(_, _, _, _)
RunFrom(pc, p, a, Orbit) ==
    IF pc = "done" THEN [p |-> p, a |-> a]
    ELSE LET n == Step(pc, p, a, Orbit) IN RunFrom(n.pc, n.p, n.a, Orbit)
Clean(p, a, Orbit) == RunFrom("jumpP", p, a, Orbit)
=============================================================================
