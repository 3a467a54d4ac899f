------------------------------- MODULE Compare ------------------------------
(* Comparison of two measurements on the same reference times (P25).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
NoLim == 0          \* no limit given (positions are positive)

Lo(o1, o2, tmin) == LET m == Max2(o1.lo, o2.lo) IN IF tmin = NoLim THEN m ELSE Max2(m, tmin)
Hi(o1, o2, tmax) == LET m == Min2(o1.hi, o2.hi) IN IF tmax = NoLim THEN m ELSE Min2(m, tmax)
\* limits that no common time can satisfy
Disjoint(o1, o2, tmin, tmax) ==
    \/ tmin # NoLim /\ tmin > Min2(o1.hi, o2.hi)
    \/ tmax # NoLim /\ tmax < Lo(o1, o2, tmin)
\* the common times, in the order requested; the latest limit is excluded
Common(req, o1, o2, tmin, tmax) ==
    SelectSeq(req, LAMBDA x : x >= Lo(o1, o2, tmin) /\ x < Hi(o1, o2, tmax))

CONSTANTS Pos, Emit
VARIABLES c
Objs == {[lo |-> a, hi |-> b] : a, b \in Pos} \cap {o \in [lo : Pos, hi : Pos] : o.lo < o.hi}
Req == [i \in 1..Cardinality(Pos) |-> i]
Init == /\ \E a, b \in Objs : \E x, y \in Pos \cup {NoLim} : c = [a |-> a, b |-> b, tmin |-> x, tmax |-> y]
        /\ (Emit => PrintT("@@" \o ToJson(c)))
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

R(k) == Common(Req, k.a, k.b, k.tmin, k.tmax)
Symmetric == R(c) = R([c EXCEPT !.a = c.b, !.b = c.a])
Inside == \A i \in DOMAIN R(c) : LET x == R(c)[i] IN
              /\ c.a.lo <= x /\ x <= c.a.hi /\ c.b.lo <= x /\ x <= c.b.hi
              /\ c.tmin # NoLim => x >= c.tmin
              /\ c.tmax # NoLim => x < c.tmax
Complete == \A x \in Pos : (/\ c.a.lo <= x /\ x < c.a.hi /\ c.b.lo <= x /\ x < c.b.hi
                            /\ (c.tmin # NoLim => x >= c.tmin) /\ (c.tmax # NoLim => x < c.tmax))
                           => \E i \in DOMAIN R(c) : R(c)[i] = x
DisjointIsEmpty == Disjoint(c.a, c.b, c.tmin, c.tmax) => R(c) = <<>>
=============================================================================
