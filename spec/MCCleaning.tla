---------------------------- MODULE MCCleaning -----------------------------
(* Exhaustive design model: all gap patterns of one kind (the other regular) *)
(* or of both kinds.  Phase is linear in time, one orbit = 20 units.         *)
EXTENDS Cleaning, TLC, Json

CONSTANTS Gaps, NP, NA, APOGAPS, Off, Emit

Orbit == 20

VARIABLES pc, p, a, p0, a0
vars == <<pc, p, a, p0, a0>>

RECURSIVE Build(_, _)
Build(g, x) == IF g = <<>> THEN <<[i |-> x, ph |-> x]>>
               ELSE <<[i |-> x, ph |-> x]>> \o Build(Tail(g), x + Head(g))

Init == /\ pc = "jumpP"
        /\ \E gp \in [1..NP -> Gaps], ga \in [1..NA -> APOGAPS], o \in Off :
              p = Build(gp, 100) /\ a = Build(ga, 80 + o)
        /\ p0 = p /\ a0 = a
        \* the two kinds never coincide
        /\ \A x \in 1..Len(p), y \in 1..Len(a) : p[x].i # a[y].i

Next == \/ /\ pc # "done"
           /\ LET n == Step(pc, p, a, Orbit) IN pc' = n.pc /\ p' = n.p /\ a' = n.a
           /\ UNCHANGED <<p0, a0>>
           /\ (Emit /\ pc' = "done") =>
                 PrintT("@@" \o ToJson([p |-> [k \in 1..Len(p0) |-> p0[k].i],
                                        a |-> [k \in 1..Len(a0) |-> a0[k].i]]))
        \/ pc = "done" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Contig(s, o) == \E x, y \in 1..Len(o) : s = SubSeq(o, x, y)
NothingElse == Contig(p, p0) /\ Contig(a, a0) /\ p # <<>> /\ a # <<>>
AtMostOneBeyond == pc = "done" =>
    /\ Len(SelectSeq(p, LAMBDA x : x.i > a[Len(a)].i)) <= 1
    /\ Len(SelectSeq(a, LAMBDA x : x.i > p[Len(p)].i)) <= 1
    /\ Len(SelectSeq(p, LAMBDA x : x.i < a[1].i)) <= 1
    /\ Len(SelectSeq(a, LAMBDA x : x.i < p[1].i)) <= 1
\* a jump past the middle never survives together with what follows it
NoLateJump == pc = "closeP" =>
    LET k0 == TooLarge(p0) IN
    (k0 # {} /\ MinS(k0) - 1 > NRatios(p0) \div 2) => p[Len(p)].i <= p0[MinS(k0) + 1].i
\* regular data is left alone
Regular == (TooLarge(p0) = {} /\ TooSmall(p0) = {} /\ TooClose(p0, Orbit) = {}
            /\ pc = "endP") => p = p0
Shrinks == [][Contig(p', p) /\ Contig(a', a)]_vars
Agree == pc = "done" => [p |-> p, a |-> a] = Clean(p0, a0, Orbit)
=============================================================================
