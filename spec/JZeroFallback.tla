---------------------------- MODULE JZeroFallback ---------------------------
(* Conformance of recorded measurements to ZeroFallback (P11).  long is      *)
(* "yes", "no" or "edge" (five orbits to rounding).  got: "zero" (exactly    *)
(* zero everywhere), "values", "error"; plain: the same without the fallback.*)
EXTENDS Judge
LOCAL Z == INSTANCE ZeroFallback WITH MaxN <- 0, Emit <- FALSE, np <- 0, ra <- 0, mid <- FALSE, long <- FALSE,
                                      flag <- FALSE, na <- 0, pc <- 0, res <- 0
Exp(r) == IF r.long = "edge" THEN {Z!Decide(r.np, r.na, TRUE, r.flag), Z!Decide(r.np, r.na, FALSE, r.flag)}
          ELSE {Z!Decide(r.np, r.na, r.long = "yes", r.flag)}
Verdict(r) ==
    LET e == Exp(r) IN
    {k \in {"must-be-zero", "must-be-an-error", "fallback-has-effect", "points", "unrequested-zero", "must-be-an-error-without"} :
     \/ k = "must-be-zero" /\ e = {"zero"} /\ r.got # "zero"
     \/ k = "must-be-an-error" /\ e = {"error"} /\ r.got # "error"
     \/ k = "must-be-an-error-without" /\ Z!Decide(r.np, r.na, r.long = "yes", FALSE) = "error" /\ r.plain # "error"
     \/ k = "fallback-has-effect" /\ e = {"measure"} /\ (r.got # r.plain \/ (r.got = "values" /\ r.dg # r.plaindg))
     \/ k = "points" /\ "zero" \in e /\ r.got = "zero" /\ ~r.points
     \/ k = "unrequested-zero" /\ "zero" \notin e /\ r.got = "zero" /\ r.plain # "zero"}
=============================================================================
