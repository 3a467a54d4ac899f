------------------------------ MODULE Figures ------------------------------
(* Figures of a measured object (P27).                                       *)
(* After a measurement the user draws figures and asks for derived values in *)
(* any order.  Some quantities are computed when first needed and kept.  A   *)
(* figure shows the same, complete curves whatever was drawn or asked for    *)
(* before, and nothing is drawn from a quantity that does not exist.  The    *)
(* diagnostic figure is built panel by panel into a grid.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Emit
Methods == {"Amplitude", "Frequency", "ResidualAmplitude", "ResidualFrequency", "AmplitudeFits", "FrequencyFits"}
Residual == {"ResidualAmplitude", "ResidualFrequency"}
Panels == {"ecc", "decc", "ano", "omega", "avg", "amp", "ratio", "res_amp", "res_omega", "data"}
Queries == {"fref_bounds", "derivative"}
\* curves of a panel; one: a single reference time was requested; orbit: also the averages between extrema were asked for
Curves(p, one, orbit) ==
    CASE p = "ecc" -> {"ecc"} \cup (IF one THEN {"tref", "ecc@tref"} ELSE {})
      [] p = "decc" -> {"decc", "zero"}
      [] p = "ano" -> {"ano"} \cup (IF one THEN {"tref", "ano@tref"} ELSE {})
      [] p = "omega" -> {"omega", "env@peri", "env@apo", "omega@peri", "omega@apo"}
      [] p = "avg" -> {"avg", "omega"} \cup (IF orbit THEN {"avg@peri", "avg@apo"} ELSE {})
      [] p = "amp" -> {"amp", "amp@peri", "amp@apo"}
      [] p = "ratio" -> {"ratio@peri", "ratio@apo"}
      [] p = "res_amp" -> {"res_amp", "res_amp@peri", "res_amp@apo"}
      [] p = "res_omega" -> {"res_omega", "res_omega@peri", "res_omega@apo"}
      [] p = "data" -> {"data", "data@peri", "data@apo", "end"} \cup (IF one THEN {"tref"} ELSE {})
\* quantities computed on demand
Needs(p) == CASE p = "ecc" -> {"ecc"} [] p = "decc" -> {"ecc", "decc"} [] p = "avg" -> {"avg"} [] p = "ratio" -> {"ratio"}
              [] p = "fref_bounds" -> {"avg"} [] p = "derivative" -> {"ecc"} [] OTHER -> {}
Available(p, zero) == p \notin {"res_amp", "res_omega"} \/ zero
Base == {"ecc", "ano", "omega", "data", "decc", "ratio", "avg"}
\* panels of the diagnostic figure: the residual that is not the data searched is added
Diagnostic(m, zero) == Base \cup {p \in {"res_amp", "res_omega"} : zero /\ p # (CASE m = "ResidualAmplitude" -> "res_amp"
                                                                          [] m = "ResidualFrequency" -> "res_omega" [] OTHER -> "")}
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
Rows(n, two) == IF two THEN (n + 1) \div 2 ELSE n
VARIABLES method, zero, level, one, two, have, ops, drawn, todo, grid, pc
vars == <<method, zero, level, one, two, have, ops, drawn, todo, grid, pc>>
Init == /\ method \in Methods /\ zero \in BOOLEAN /\ (method \in Residual => zero)
        /\ level \in 0..1 /\ one \in BOOLEAN /\ two \in BOOLEAN
        /\ have = {"ecc", "decc"} \cup (IF level = 1 THEN {"ratio"} ELSE {})   \* from the checks of the measurement
        /\ ops = <<>> /\ drawn = {} /\ todo = <<>> /\ grid = <<>> /\ pc = "ready"
Draw(p) == /\ pc = "ready" /\ Len(ops) < MaxOps /\ p \in Panels /\ Available(p, zero)
           /\ have' = have \cup Needs(p) /\ drawn' = Curves(p, one, FALSE) /\ ops' = Append(ops, p)
           /\ UNCHANGED <<method, zero, level, one, two, todo, grid, pc>>
Ask(q) == /\ pc = "ready" /\ Len(ops) < MaxOps
          /\ have' = have \cup Needs(q) /\ drawn' = {} /\ ops' = Append(ops, q)
          /\ UNCHANGED <<method, zero, level, one, two, todo, grid, pc>>
Start == /\ pc = "ready" /\ Len(ops) < MaxOps /\ pc' = "panels"
         /\ todo' = SetToSeq(Diagnostic(method, zero)) /\ grid' = <<>> /\ ops' = Append(ops, "all") /\ drawn' = {}
         /\ UNCHANGED <<method, zero, level, one, two, have>>
Panel == /\ pc = "panels" /\ todo # <<>>
         /\ grid' = Append(grid, [panel |-> Head(todo), curves |-> Curves(Head(todo), one, FALSE)])
         /\ have' = have \cup Needs(Head(todo)) /\ todo' = Tail(todo)
         /\ UNCHANGED <<method, zero, level, one, two, ops, drawn, pc>>
Finish == /\ pc = "panels" /\ todo = <<>> /\ pc' = "ready" /\ UNCHANGED <<method, zero, level, one, two, have, ops, drawn, todo, grid>>
Next == (\E p \in Panels : Draw(p)) \/ (\E q \in Queries : Ask(q)) \/ Start \/ Panel \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Panel \/ Finish)
\* nothing is drawn from a missing quantity
Defined == ops # <<>> /\ pc = "ready" => LET p == ops[Len(ops)] IN p = "all" \/ Needs(p) \subseteq have
\* a figure does not depend on what was drawn or asked before
Same == ops # <<>> /\ ops[Len(ops)] \in Panels => drawn = Curves(ops[Len(ops)], one, FALSE)
\* the diagnostic figure: every panel once, all fit, every residual and the searched data are visible somewhere
Shows(c) == \E i \in 1..Len(grid) : c \in grid[i].curves
Complete == pc = "ready" /\ grid # <<>> =>
    /\ {grid[i].panel : i \in 1..Len(grid)} = Diagnostic(method, zero) /\ Cardinality(Diagnostic(method, zero)) = Len(grid)
    /\ Rows(Len(grid), two) * (IF two THEN 2 ELSE 1) >= Len(grid)
    /\ Rows(Len(grid), two) * (IF two THEN 2 ELSE 1) - Len(grid) <= 1
    /\ Shows("data") /\ Shows("ecc") /\ Shows("ano") /\ Shows("avg")
    /\ zero => \A r \in {"res_amp", "res_omega"} : Shows(r) \/ (Shows("data") /\ method = (IF r = "res_amp" THEN "ResidualAmplitude" ELSE "ResidualFrequency"))
    /\ one => Shows("tref")
Ends == (pc = "panels") ~> (pc = "ready")
Emitted == (Emit /\ pc = "ready" /\ Len(ops) = MaxOps) =>
    PrintT("@@" \o ToJson([method |-> method, zero |-> zero, level |-> level, one |-> one, two |-> two, ops |-> ops]))
=============================================================================
