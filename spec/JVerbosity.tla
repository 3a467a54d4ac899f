----------------------------- MODULE JVerbosity -----------------------------
(* Conformance of recorded runs to Verbosity (P12).  r.runs is one run per   *)
(* level ("m1","0","1","2","bad","plots"): msgs (identities of the messages  *)
(* shown, notices excluded), notes (of notices shown), printed, end ("ok" or *)
(* an error identity), val (identity of the values and queried state).       *)
EXTENDS Judge
LOCAL V == INSTANCE Verbosity WITH MaxLen <- 0, Emit <- FALSE, script <- <<>>, pos <- 0, shown <- 0, val <- 0, end <- 0
Set(x) == {x[i] : i \in 1..Len(x)}
Run(r, l) == r.runs[l]
Has(r, l) == l \in DOMAIN r.runs
Verdict(r) ==
    LET sh == [l \in {"m1", "0", "1"} |-> Set(Run(r, l).msgs) \cup Set(Run(r, l).notes)]
        vl == [l \in {"m1", "0", "1"} |-> Run(r, l).val]
        en == [l \in {"m1", "0", "1"} |-> Run(r, l).end]
        loud == Set(Run(r, "1").msgs) # {}
    IN {k \in {"quiet", "subset", "same", "raise", "no-false-error", "level2-value", "bad-level", "plots"} :
        \/ k = "quiet" /\ (~V!Quiet(sh) \/ Run(r, "m1").printed)
        \/ k = "subset" /\ ~V!Subset(sh)
        \/ k = "same" /\ ~V!Same(vl, en)
        \/ k = "raise" /\ loud /\ Run(r, "2").end = "ok"
        \/ k = "no-false-error" /\ ~loud /\ Run(r, "1").end = "ok" /\ Run(r, "2").end # "ok"
        \/ k = "level2-value" /\ Run(r, "2").end = "ok" /\ (Run(r, "2").val # Run(r, "1").val \/ Run(r, "1").end # "ok")
        \/ k = "bad-level" /\ Has(r, "bad") /\ loud /\ Run(r, "bad").end = "ok"
        \/ k = "plots" /\ Has(r, "plots") /\ (Run(r, "plots").end # en["1"] \/ Run(r, "plots").val # vl["1"])}
=============================================================================
