------------------------------- MODULE Average ------------------------------
(* Orbit-averaged frequency (P17).  Extrema alternate; half steps of time g  *)
(* and of phase s separate neighbours.  The average between two extrema of   *)
(* one kind sits at the middle of their times; both kinds are merged in time *)
(* order and have to increase strictly.  Built incrementally: each new       *)
(* extremum closes one average.                                              *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Gaps, Steps, MaxExt, Emit, G0, S0, GU, SU

VARIABLES g, s, avgs, ok
vars == <<g, s, avgs, ok>>
Time(x) == G0 + GU * x
Phase(x) == S0 + SU * x
\* average over two consecutive half steps, as <<phase, time>>
A(i, gg, ss) == <<Phase(ss[i]) + Phase(ss[i + 1]), Time(gg[i]) + Time(gg[i + 1])>>
Less(a, b) == a[1] * b[2] < b[1] * a[2]

Init == g = <<>> /\ s = <<>> /\ avgs = <<>> /\ ok = TRUE
Extend(x, y) ==
    /\ Len(g) < MaxExt - 1
    /\ g' = Append(g, x) /\ s' = Append(s, y)
    /\ IF Len(g) = 0 THEN avgs' = avgs /\ ok' = ok
       ELSE LET a == A(Len(g), g', s')
            IN /\ avgs' = Append(avgs, a)
               /\ ok' = (ok /\ (avgs = <<>> \/ Less(avgs[Len(avgs)], a)))
Done == Len(g) = MaxExt - 1
Next == (\E x \in Gaps, y \in Steps : Extend(x, y)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* midpoints of the two kinds interleave, so appending keeps time order
RECURSIVE T(_, _)
T(gg, i) == IF i <= 1 THEN 0 ELSE T(gg, i - 1) + Time(gg[i - 1])
Mid(i) == T(g, i) + T(g, i + 2)            \* twice the midpoint
MidsSorted == \A i \in 1..(Len(avgs) - 1) : Mid(i) < Mid(i + 1)
OkMeans == ok <=> \A i \in 1..(Len(avgs) - 1) : Less(avgs[i], avgs[i + 1])
\* increasing in each kind alone is implied, not sufficient
KindsFollow == ok => \A i \in 1..(Len(avgs) - 2) : Less(avgs[i], avgs[i + 2])
Emitted == (Done /\ Emit) => PrintT("@@" \o ToJson([g |-> g, s |-> s, ok |-> ok]))
=============================================================================
