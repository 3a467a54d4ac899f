------------------------------ MODULE Segment ------------------------------
(* Selection of the analysed stretch of data (P13).  Phases are integers, 10 *)
(* units to an orbit; ph is increasing; lo, hi index the earliest and latest *)
(* reference point; n orbits are requested.  The transition system walks     *)
(* outward from the reference points; the predicates below are the property. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Max(a, b) == IF a > b THEN a ELSE b
MaxGap(ph) == LET g == {ph[i + 1] - ph[i] : i \in 1..(Len(ph) - 1)} IN CHOOSE x \in g : \A y \in g : x >= y

(* predicates on any run: p0, p1 phases of the first and last sample of the  *)
(* data, ps, pe of the analysed stretch, pl, pr of the reference points, all *)
(* in u units to an orbit, n (times u) requested, g the largest sample step  *)
Cut0(p0, ps) == ps <= p0
Cut1(p1, pe, g) == pe >= p1 - g
Contains(ps, pe, pl, pr, g) == ps <= pl + g /\ pr <= pe + g
LongEnough(p0, p1, ps, pe, nu, g) == pe - ps >= nu - 2 * g \/ (Cut0(p0, ps) /\ Cut1(p1, pe, g))
ReachLeft(p0, ps, pl, nu, g) == Cut0(p0, ps) \/ 2 * (pl - ps) >= nu - 4 * g
ReachRight(p1, pe, pr, nu, g) == Cut1(p1, pe, g) \/ 2 * (pe - pr) >= nu - 4 * g
(* about half of the requested orbits, not arbitrarily more: at most three   *)
(* quarters and two orbits beyond each reference point, and what is missing  *)
(* on the other side                                                         *)
W(nu, u) == (3 * nu) \div 4 + 2 * u
NotTooLong(p0, p1, ps, pe, pl, pr, nu, u, g) ==
    /\ pl - ps <= W(nu, u) + 2 * g + (IF Cut1(p1, pe, g) THEN nu ELSE 0)
    /\ pe - pr <= W(nu, u) + 2 * g + (IF Cut0(p0, ps) THEN nu ELSE 0)

CONSTANTS Len0, Gaps, Ns, Emit
VARIABLES ph, lo, hi, n, s, e, pc
vars == <<ph, lo, hi, n, s, e, pc>>
RECURSIVE Sum(_, _)
Sum(g, k) == IF k = 0 THEN 0 ELSE g[k] + Sum(g, k - 1)
Whole(q, m) == q[Len(q)] - q[1] < 10 * m
Init == /\ \E g \in [1..(Len0 - 1) -> Gaps] : ph = [i \in 1..Len0 |-> Sum(g, i - 1)]
        /\ lo \in 1..Len0 /\ hi \in lo..Len0 /\ n \in Ns
        /\ s = lo /\ e = hi /\ pc = "left"
        /\ (Emit => PrintT("@@" \o ToJson([ph |-> ph, lo |-> lo, hi |-> hi, n |-> n])))
Half == 11 * ((n + 1) \div 2)       \* 1.1 orbits for each requested one
Same == UNCHANGED <<ph, lo, hi, n>>
Left == /\ pc = "left" /\ Same /\ e' = e
        /\ IF Whole(ph, n) THEN s' = 1 /\ pc' = "all"
           ELSE IF s > 1 /\ ph[lo] - ph[s] < Half THEN s' = s - 1 /\ pc' = pc
           ELSE s' = s /\ pc' = "right"
(* what an end of the data takes away is added on the other side *)
Want == IF s = 1 THEN Half + Max((11 * n) \div 2 + 1 - (ph[lo] - ph[1]) - (ph[hi] - ph[lo]), 0) ELSE Half
Right == /\ pc = "right" /\ Same /\ s' = s
         /\ IF e < Len(ph) /\ ph[e] - ph[hi] < Want THEN e' = e + 1 /\ pc' = pc ELSE e' = e /\ pc' = "again"
Want2 == Half + Max((11 * n) \div 2 + 1 - (ph[Len(ph)] - ph[hi]) - (ph[hi] - ph[lo]), 0)
Again == /\ pc = "again" /\ Same /\ e' = e
         /\ IF e = Len(ph) /\ s > 1 /\ ph[lo] - ph[s] < Want2 THEN s' = s - 1 /\ pc' = pc ELSE s' = s /\ pc' = "done"
All == pc = "all" /\ Same /\ s' = 1 /\ e' = Len(ph) /\ pc' = "done"
Next == Left \/ Right \/ Again \/ All
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

G == MaxGap(ph)
Done == pc = "done"
A(i) == ph[i]
ContainsInv == Done => Contains(A(s), A(e), A(lo), A(hi), 0)
LongInv == Done => LongEnough(A(1), A(Len0), A(s), A(e), 10 * n, 0)
ReachInv == Done => ReachLeft(A(1), A(s), A(lo), 10 * n, 0) /\ ReachRight(A(Len0), A(e), A(hi), 10 * n, 0)
ShortInv == Done => NotTooLong(A(1), A(Len0), A(s), A(e), A(lo), A(hi), 10 * n, 10, G) \/ Whole(ph, n)
WholeInv == Done /\ Whole(ph, n) => s = 1 /\ e = Len(ph)
Terminates == <>Done
=============================================================================
