------------------------------ MODULE Request -------------------------------
(* Validation of a request (P10).  A request is a set of defects over the    *)
(* components below together with the three facts that decide which          *)
(* components are in use.  The transition system checks components one by    *)
(* one in an arbitrary order and may produce values only when none that is   *)
(* in use is left: whatever the order, the outcome is Decide.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Always == {"method", "frame", "interp", "refcount", "times", "top", "general", "special", "extrema"}
Sometimes == {"average", "fits", "filter"}
Comps == Always \cup Sometimes

\* used in the frequency domain, by the Fits methods, by precessing systems
Used(fd, fits, prec) == Always \cup (IF fd THEN {"average"} ELSE {})
                        \cup (IF fits THEN {"fits"} ELSE {}) \cup (IF prec THEN {"filter"} ELSE {})
Decide(bad, fd, fits, prec) ==
    IF bad \cap Used(fd, fits, prec) # {} THEN "reject"
    ELSE IF bad = {} THEN "accept" ELSE "either"

CONSTANTS Emit, MaxBad
VARIABLES bad, fd, fits, prec, todo, status
vars == <<bad, fd, fits, prec, todo, status>>
Init == /\ bad \in {b \in SUBSET Comps : Cardinality(b) <= MaxBad}
        /\ fd \in BOOLEAN /\ fits \in BOOLEAN /\ prec \in BOOLEAN
        /\ todo = Comps /\ status = "open"
        /\ (Emit => PrintT("@@" \o ToJson([bad |-> bad, fd |-> fd, fits |-> fits, prec |-> prec,
                                           decide |-> Decide(bad, fd, fits, prec)])))
Check(k) == /\ status = "open" /\ k \in todo
            /\ todo' = todo \ {k}
            /\ \/ k \in bad /\ status' = "reject"
               \/ (k \notin bad \/ k \notin Used(fd, fits, prec)) /\ status' = status
            /\ UNCHANGED <<bad, fd, fits, prec>>
Return == /\ status = "open" /\ todo \cap Used(fd, fits, prec) = {}
          /\ status' = "accept" /\ UNCHANGED <<bad, fd, fits, prec, todo>>
Next == Return \/ \E k \in Comps : Check(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sound == status # "open" => LET d == Decide(bad, fd, fits, prec) IN status = d \/ d = "either"
EmitSpec == Init /\ [][FALSE]_vars
Terminates == <>(status # "open")
=============================================================================
