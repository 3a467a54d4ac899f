---------------------------- MODULE ZeroFallback ----------------------------
(* When zero eccentricity is reported (P11).  np, na: extrema found of each  *)
(* kind; long: more than five orbits are analysed; flag: the fallback is on. *)
(* Decide is the rule; the transition system finds pericenters, then         *)
(* apocenters (or takes the midpoints of the pericenters) and decides.       *)
EXTENDS Integers, Sequences, TLC, Json

Few(np, na) == np < 2 \/ na < 2
Decide(np, na, long, flag) ==
    IF ~Few(np, na) THEN "measure" ELSE IF long /\ flag THEN "zero" ELSE "error"
Mid(np) == IF np = 0 THEN 0 ELSE np - 1

CONSTANTS MaxN, Emit
VARIABLES np, ra, mid, long, flag, na, pc, res
vars == <<np, ra, mid, long, flag, na, pc, res>>
Init == /\ np \in 0..MaxN /\ ra \in 0..MaxN /\ mid \in BOOLEAN /\ long \in BOOLEAN /\ flag \in BOOLEAN
        /\ na = -1 /\ pc = "peri" /\ res = "open"
        /\ (Emit => PrintT("@@" \o ToJson([np |-> np, ra |-> ra, mid |-> mid, long |-> long, flag |-> flag])))
Same == UNCHANGED <<np, ra, mid, long, flag>>
Peri == /\ pc = "peri"
        /\ IF np < 2 /\ ~(long /\ flag) THEN res' = "error" /\ pc' = "end" ELSE res' = res /\ pc' = "apo"
        /\ na' = na /\ Same
Apo == /\ pc = "apo" /\ na' = (IF mid THEN Mid(np) ELSE ra) /\ pc' = "decide" /\ res' = res /\ Same
Deci == /\ pc = "decide"
        /\ res' = (IF np < 2 \/ na < 2 THEN IF long /\ flag THEN "zero" ELSE "error" ELSE "measure")
        /\ pc' = "end" /\ na' = na /\ Same
Next == Peri \/ Apo \/ Deci
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Found == IF mid THEN Mid(np) ELSE ra
Right == pc = "end" => res = Decide(np, Found, long, flag)
ZeroOnlyOnRequest == res = "zero" => flag /\ long /\ Few(np, Found)
FlagIrrelevant == ~Few(np, Found) => Decide(np, Found, long, TRUE) = Decide(np, Found, long, FALSE)
Terminates == <>(pc = "end")
=============================================================================
