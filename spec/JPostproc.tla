------------------------------ MODULE JPostproc -----------------------------
(* Conformance of whole postprocessing jobs of the real code to Postproc     *)
(* (P19, P20).  One record: the request and the runs on one output folder,   *)
(* the last one undisturbed.                                                 *)
EXTENDS Judge
LOCAL D == INSTANCE Postproc
Set(s) == D!Range(s)
(* one run *)
Run(x, r) ==
    (IF D!Once(x.evals) THEN {} ELSE {"evaluated-twice"})
    \cup (IF D!OnlySelected(x.evals, r.req) THEN {} ELSE {"evaluated-unselected"})
    \cup (IF D!NotAgain(x.evals, Set(x.before)) THEN {} ELSE {"evaluated-again"})
    \cup (IF D!Durable(Set(x.before), Set(x.after)) THEN {} ELSE {"checkpoint-lost-rows"})
    \cup (IF D!Honest(x.evals, Set(x.before), Set(x.after)) THEN {} ELSE {"checkpoint-invented-rows"})
    \cup (IF x.ckok THEN {} ELSE {"checkpoint-damaged"})
    \cup (IF x.outok THEN {} ELSE {"results-damaged"})
    \cup (IF x.paramsok THEN {} ELSE {"wrong-parameters"})
    \cup (IF x.E = 0 \/ D!Recent(x.evals, Set(x.after), x.E, x.P, x.B) THEN {} ELSE {"checkpoint-stale"})
    \cup (IF x.disturbed THEN (IF x.end \in {"deadlock", "hang"} THEN {"never-stops"} ELSE {})
          ELSE IF x.end \in {"deadlock", "hang"} THEN {"never-stops"}
          ELSE IF x.end # D!Ends(r.req) THEN (IF D!Bad(r.req) THEN {"accepts-unknown-sample"} ELSE {"run-failed"})
          ELSE IF D!Bad(r.req) THEN {}
          ELSE (IF D!AllDone(x.evals, Set(x.before), r.req) THEN {} ELSE {"not-evaluated"})
               \cup (IF x.E = 0 \/ Set(D!Sel(r.req)) \subseteq Set(x.after) THEN {} ELSE {"checkpoint-incomplete"}))
Verdict(r) ==
    UNION {Run(r.runs[i], r) : i \in 1..Len(r.runs)}
    \cup (IF D!Bad(r.req) THEN (IF r.rows = <<>> THEN {} ELSE {"rows"})
          ELSE IF r.runs[Len(r.runs)].end # "end" THEN {}
          ELSE (IF D!RowsRight(r.rows, r.req) THEN {} ELSE {"rows"})
               \cup (IF \A i \in 1..Len(r.rowok) : r.rowok[i] THEN {} ELSE {"row-values"}))
=============================================================================
