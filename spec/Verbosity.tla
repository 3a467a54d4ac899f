----------------------------- MODULE Verbosity -----------------------------
(* Messages and verbosity (P12).  A run of the analysis is a script of       *)
(* events: "work" (computes), "imp" / "unimp" (something to report, more or  *)
(* less important), "notice" (a report that is never an error) and "fail"    *)
(* (an error of the analysis itself).  The same script runs at every level   *)
(* in lockstep (self-composition): shown[l] are the events reported at level *)
(* l, val[l] what was computed, end[l] how it ended.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Emit
Events == {"work", "imp", "unimp", "notice", "fail"}
Levels == {"m1", "0", "1", "2", "bad"}
Reports(e) == e \in {"imp", "unimp", "notice"}

(* what reporting event e at level l does: shown, raises *)
Shows(l, e) == \/ l = "1" /\ Reports(e)
               \/ l \in {"2", "bad"} /\ e = "notice"
               \/ l = "0" /\ e \in {"imp", "notice"}
Raises(l, e) == \/ l = "2" /\ e \in {"imp", "unimp"}
                \/ l = "bad" /\ Reports(e) /\ e # "notice"

VARIABLES script, pos, shown, val, end
vars == <<script, pos, shown, val, end>>

Scripts == UNION {[1..n -> Events] : n \in 0..MaxLen}
Init == /\ script \in Scripts /\ pos = 1
        /\ shown = [l \in Levels |-> {}] /\ val = [l \in Levels |-> 0]
        /\ end = [l \in Levels |-> "run"]
        /\ (Emit => PrintT("@@" \o ToJson(script)))
Step == /\ pos <= Len(script) /\ pos' = pos + 1 /\ script' = script
        /\ LET e == script[pos] IN
           /\ shown' = [l \in Levels |-> IF end[l] = "run" /\ Shows(l, e) THEN shown[l] \cup {pos} ELSE shown[l]]
           /\ val' = [l \in Levels |-> IF end[l] = "run" /\ e = "work" THEN val[l] * 2 + pos ELSE val[l]]
           /\ end' = [l \in Levels |-> IF end[l] # "run" THEN end[l]
                                       ELSE IF Raises(l, e) THEN "report" ELSE IF e = "fail" THEN "fail" ELSE "run"]
Done == pos > Len(script) /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars

(* the property, on finished runs *)
Finished == pos > Len(script)
Quiet(s) == s["m1"] = {}
Subset(s) == s["0"] \subseteq s["1"]
Same(v, e) == v["m1"] = v["0"] /\ v["0"] = v["1"] /\ e["m1"] = e["0"] /\ e["0"] = e["1"]
(* level 2 ends by a report iff level 1 shows something other than notices *)
Loud == \E k \in shown["1"] : script[k] # "notice"
QuietInv == Quiet(shown)
SubsetInv == Subset(shown)
SameInv == Same(val, end)
RaiseInv == Finished => ((end["2"] = "report") <=> Loud)
BadInv == Finished => ((end["bad"] = "report") <=> Loud)
NoFalseResult == Finished /\ end["2"] = "run" => val["2"] = val["1"] /\ end["1"] = "run"
=============================================================================
