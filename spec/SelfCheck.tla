----------------------------- MODULE SelfCheck -----------------------------
(* The checks a measurement makes of itself and reports as warnings (P26).   *)
(* Extrema are phases (one orbit = 20 units: half an orbit is 10); ecc is    *)
(* the sign of the change of eccentricity at each sample of the measured     *)
(* range.  One pass over the merged list of extrema and one over the samples *)
(* with constant memory (the automaton) must report what the definitions     *)
(* below say about the whole lists.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Half == 10
Orbit == 20
Gap(s, k) == s[k + 1] - s[k]
NG(s) == IF Len(s) = 0 THEN 0 ELSE Len(s) - 1
Abs(x) == IF x < 0 THEN -x ELSE x
Larger(x, y) == IF x > y THEN x ELSE y
Smaller(x, y) == IF x < y THEN x ELSE y

(* definitions *)
TooClose(s, half) == \E k \in 1..NG(s) : Gap(s, k) < half
NearHalf(s, half) == \E k \in 1..NG(s) : Abs(Gap(s, k) - half) < Abs(Gap(s, k) - 2 * half)
TooFar(s) == \E k \in 2..NG(s) : 2 * Gap(s, k) > 3 * Gap(s, k - 1)
FarSet(s) == {k \in 2..NG(s) : 2 * Gap(s, k) > 3 * Gap(s, k - 1)}
CloseSet(s, half) == {k \in 1..NG(s) : Gap(s, k) < half}
Differ(p, a) == Abs(Len(p) - Len(a)) >= 2
(* the neighbours of an extremum in the merged list are of the other kind *)
Pos(p, a) == {p[i] : i \in 1..Len(p)} \cup {a[i] : i \in 1..Len(a)}
Between(s, lo, hi) == {i \in 1..Len(s) : lo < s[i] /\ s[i] < hi}
Mixed(p, a) == \/ \E k \in 1..NG(p) : Between(a, p[k], p[k + 1]) = {}
               \/ \E k \in 1..NG(a) : Between(p, a[k], a[k + 1]) = {}
TooMany(before, after) == 2 * (before - after) > before
(* first and last sample where the eccentricity increases *)
Ups(e) == {k \in 1..Len(e) : e[k] > 0}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x

Warns(p, a, half) ==
    {w \in {"differ", "mixed", "close-p", "close-a", "half-p", "half-a", "far-p", "far-a"} :
       \/ w = "differ" /\ Differ(p, a)
       \/ w = "mixed" /\ ~Differ(p, a) /\ Mixed(p, a)
       \/ w = "close-p" /\ TooClose(p, half)
       \/ w = "close-a" /\ TooClose(a, half)
       \/ w = "half-p" /\ NearHalf(p, half)
       \/ w = "half-a" /\ NearHalf(a, half)
       \/ w = "far-p" /\ TooFar(p)
       \/ w = "far-a" /\ TooFar(a)}

(* the two lists put together alternately, the longer (or earlier) one first *)
Weave(p, a) ==
    LET pfirst == IF Len(p) = Len(a) THEN p[1] < a[1] ELSE Len(p) > Len(a)
        x == IF pfirst THEN p ELSE a
        y == IF pfirst THEN a ELSE p
    IN [k \in 1..(Len(x) + Len(y)) |-> IF k % 2 = 1 THEN x[(k + 1) \div 2] ELSE y[k \div 2]]
Descends(s) == \E k \in 1..NG(s) : Gap(s, k) < 0

CONSTANTS Gaps, NP, NA, Offsets, ELen, Emit
VARIABLES p, a, e, pos, lastp, lasta, gapp, gapa, np, na, kind, flags, up
vars == <<p, a, e, pos, lastp, lasta, gapp, gapa, np, na, kind, flags, up>>
None == -1000

RECURSIVE Build(_, _)
Build(g, x) == IF g = <<>> THEN <<x>> ELSE <<x>> \o Build(Tail(g), x + Head(g))
Lists(n, x) == UNION {{Build(g, x) : g \in [1..m -> Gaps]} : m \in 1..n}

Init == /\ p \in Lists(NP, 100) /\ \E o \in Offsets : a \in Lists(NA, 80 + o)
        /\ \A i \in 1..Len(p), j \in 1..Len(a) : p[i] # a[j]
        \* the two passes are independent: not all combinations
        /\ e \in IF Len(p) = 1 /\ Len(a) = 1 THEN [1..ELen -> {-1, 0, 1}] ELSE {[k \in 1..ELen |-> 0]}
        /\ pos = None /\ lastp = None /\ lasta = None /\ gapp = None /\ gapa = None /\ np = 0 /\ na = 0
        /\ kind = "" /\ flags = {} /\ up = <<0, 0, 0>>
Left == {x \in Pos(p, a) : x > pos}
Put(c, w) == IF c THEN {w} ELSE {}
Walk == /\ Left # {} /\ pos' = MinS(Left) /\ UNCHANGED <<p, a, e, up>>
        /\ IF \E i \in 1..Len(p) : p[i] = pos'
           THEN LET g == pos' - lastp IN
                /\ lastp' = pos' /\ np' = np + 1 /\ gapp' = (IF lastp = None THEN None ELSE g) /\ kind' = "p"
                /\ UNCHANGED <<lasta, na, gapa>>
                /\ flags' = flags \cup Put(kind = "p", "mixed")
                     \cup (IF lastp = None THEN {} ELSE Put(g < Half, "close-p") \cup Put(2 * g < 3 * Half, "half-p")
                             \cup Put(gapp # None /\ 2 * g > 3 * gapp, "far-p"))
           ELSE LET g == pos' - lasta IN
                /\ lasta' = pos' /\ na' = na + 1 /\ gapa' = (IF lasta = None THEN None ELSE g) /\ kind' = "a"
                /\ UNCHANGED <<lastp, np, gapp>>
                /\ flags' = flags \cup Put(kind = "a", "mixed")
                     \cup (IF lasta = None THEN {} ELSE Put(g < Half, "close-a") \cup Put(2 * g < 3 * Half, "half-a")
                             \cup Put(gapa # None /\ 2 * g > 3 * gapa, "far-a"))
Scan == /\ Left = {} /\ up[3] < ELen /\ UNCHANGED <<p, a, e, pos, lastp, lasta, gapp, gapa, np, na, kind, flags>>
        /\ LET k == up[3] + 1 IN
           up' = IF e[k] > 0 THEN <<IF up[1] = 0 THEN k ELSE up[1], k, k>> ELSE <<up[1], up[2], k>>
Next == Walk \/ Scan
Spec == Init /\ [][Next]_vars

Walked == Left = {}
Reported == IF Abs(np - na) >= 2 THEN (flags \ {"mixed"}) \cup {"differ"} ELSE flags
Exact == Walked => Reported = Warns(p, a, Half)
(* putting the lists together alternately is the same test *)
WeaveOk == Walked /\ ~Differ(p, a) => (Mixed(p, a) <=> Descends(Weave(p, a)))
CloseIsNearHalf == TooClose(p, Half) => NearHalf(p, Half)
RangeOk == Walked /\ up[3] = ELen => IF Ups(e) = {} THEN up[1] = 0 /\ up[2] = 0
                                     ELSE up[1] = MinS(Ups(e)) /\ up[2] = MaxS(Ups(e))
Emitted == (Emit /\ pos = None) => PrintT("@@" \o ToJson([p |-> p, a |-> a]))
=============================================================================
