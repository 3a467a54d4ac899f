------------------------------ MODULE JRequest ------------------------------
(* Conformance of recorded requests to Request (P10).                        *)
EXTENDS Judge
LOCAL R == INSTANCE Request WITH Emit <- FALSE, MaxBad <- 0, bad <- 0, fd <- 0, fits <- 0, prec <- 0, todo <- 0, status <- 0
Set(s) == {s[i] : i \in DOMAIN s}
Verdict(r) ==
    LET d == R!Decide(Set(r.bad), r.fd, r.fits, r.prec)
    IN {k \in {"must-be-rejected", "must-be-accepted", "no-answer", "values-missing"} :
        \/ k = "must-be-rejected" /\ d = "reject" /\ r.outcome = "ok"
        \/ k = "must-be-accepted" /\ d = "accept" /\ r.outcome = "error"
        \/ k = "no-answer" /\ r.outcome = "none"
        \/ k = "values-missing" /\ r.outcome = "ok" /\ ~r.values}
=============================================================================
