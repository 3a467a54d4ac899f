----------------------------- MODULE JDataDict ------------------------------
(* Conformance of recorded measurements to DataDict (P09).                   *)
EXTENDS Judge
LOCAL D == INSTANCE DataDict WITH Emit <- FALSE, K <- 0, need <- 0, pc <- 0, norm <- 0, status <- 0
Set(s) == {s[i] : i \in DOMAIN s}
Verdict(r) ==
    LET d == D!Decide(Set(r.keys), r.need)
    IN IF d = "reject" THEN IF r.outcome = "ok" THEN {"must-be-rejected"} ELSE {}
       ELSE IF r.outcome # "ok" THEN IF d = "either" THEN {} ELSE {"must-be-accepted"}
       ELSE IF ~r.shape THEN {"same-points"}
       ELSE IF r.dev > r.tol THEN {"same-values"} ELSE {}
=============================================================================
