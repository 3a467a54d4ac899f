----------------------------- MODULE SpinFilter ----------------------------
(* Spin-oscillation filter of precessing systems (P18).  For the amplitude   *)
(* and for the frequency: level is the size of the mode asymmetry relative   *)
(* to the residual oscillation (in steps), thr the threshold, src the data   *)
(* the decision is taken on ("own" or one of the two), off: filtering is     *)
(* disabled.  Data is represented by what it is made of: the samples before  *)
(* the merger lose the spin part and nothing else, the ones from the merger  *)
(* on stay as they are.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Kinds == {"amp", "omega"}
Source(src, d) == IF src = "own" THEN d ELSE src
Filtered(level, thr, src, off, d) == level[Source(src, d)] > thr /\ ~off

CONSTANTS Levels, Thrs, Emit
VARIABLES level, thr, src, off, todo, orig, filt, used, phase, first, pc
vars == <<level, thr, src, off, todo, orig, filt, used, phase, first, pc>>
N == 5       \* number of samples
M == 4       \* the merger
Parts == {"secular", "eccentric", "spin"}
Init == /\ level \in [Kinds -> Levels] /\ thr \in Thrs /\ src \in {"own", "amp", "omega"} /\ off \in BOOLEAN
        /\ todo = <<"amp", "omega">> /\ pc = "filter"
        /\ orig = [d \in Kinds |-> <<>>] /\ filt = [d \in Kinds |-> <<>>] /\ used = [d \in Kinds |-> <<>>]
        /\ phase = "none" /\ first = 1
        /\ (Emit => PrintT("@@" \o ToJson([amp |-> level["amp"], omega |-> level["omega"], thr |-> thr, src |-> src, off |-> off])))
Plain(d) == [i \in 1..N |-> <<d, i, Parts>>]
Clean(d) == [i \in 1..N |-> IF i < M THEN <<d, i, Parts \ {"spin"}>> ELSE Plain(d)[i]]
In == UNCHANGED <<level, thr, src, off>>
Filter == /\ pc = "filter" /\ In /\ todo # <<>>
          /\ LET d == Head(todo)
                 f == Filtered(level, thr, src, off, d)
             IN /\ orig' = [orig EXCEPT ![d] = Plain(d)]
                /\ filt' = [filt EXCEPT ![d] = IF f THEN Clean(d) ELSE <<>>]
                /\ used' = [used EXCEPT ![d] = IF f THEN Clean(d) ELSE Plain(d)]
          /\ todo' = Tail(todo) /\ UNCHANGED <<phase, first, pc>>
Phase == /\ pc = "filter" /\ todo = <<>> /\ In /\ UNCHANGED <<todo, orig, filt, used, first>>
         /\ phase' = (IF filt["omega"] = <<>> THEN "plain" ELSE "integral of filtered omega") /\ pc' = "extrema"
Extrema == /\ pc = "extrema" /\ In /\ UNCHANGED <<todo, orig, filt, used, phase>>
           /\ first' = (IF filt["omega"] # <<>> THEN 2 ELSE 1) /\ pc' = "done"
Next == Filter \/ Phase \/ Extrema
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc = "done"
OriginalKept == Done => \A d \in Kinds : orig[d] = Plain(d)
Lengths == Done => \A d \in Kinds : Len(used[d]) = N
Exactly == Done => \A d \in Kinds : (used[d] = Clean(d)) = Filtered(level, thr, src, off, d)
                                    /\ (used[d] # Clean(d) => used[d] = Plain(d))
Disabled == Done /\ off => \A d \in Kinds : used[d] = Plain(d)
FirstDropped == Done => (first = 2) = (used["omega"] = Clean("omega"))
PhaseOk == Done => (phase = "plain") = (used["omega"] = Plain("omega"))
(* the filter removes the spin part, keeps the eccentric one, ends at merger *)
Effective == Done => \A d \in Kinds : Filtered(level, thr, src, off, d) =>
               \A i \in 1..N : IF i < M THEN "spin" \notin used[d][i][3] /\ "eccentric" \in used[d][i][3]
                                          ELSE used[d][i] = orig[d][i]
(* more asymmetry never turns the filter off *)
Monotone == \A d \in Kinds : \A e \in Levels : e >= level[d] /\ Filtered(level, thr, src, off, d) /\ Source(src, d) = d
               => Filtered([level EXCEPT ![d] = e], thr, src, off, d)
Terminates == <>Done
=============================================================================
