------------------------------- MODULE JFrame -------------------------------
(* Conformance of precessing measurements to Frame (P22).  kind "same": one  *)
(* system given in two ways; dext is the largest shift of an extremum in     *)
(* samples, de and dl the largest differences in eccentricity and mean       *)
(* anomaly (1e-9), exact if only rounding may differ.  kind "modes": outcome *)
(* with some modes missing.                                                  *)
EXTENDS Judge
LOCAL F == INSTANCE Frame WITH Fixed <- {}, Emit <- FALSE, prec <- FALSE, frame <- "", rep <- "", tags <- {}, rot <- <<>>, g <- 0,
                               modes <- <<>>, dict <- <<>>, user <- <<>>, todo <- {}, pc <- "", used <- <<>>
Set(s) == {s[i] : i \in 1..Len(s)}
Ok(r) == F!Accept(r.frame, [t \in {"ecc", "zero"} |-> Set(r.m[t])], Set(r.tags))
Verdict(r) == IF r.kind = "modes" THEN
                 (IF r.got = "values" /\ ~Ok(r) THEN {"missing-accepted"} ELSE IF r.got # "values" /\ Ok(r) THEN {"valid-rejected"} ELSE {})
              ELSE IF r.got # "values" THEN {"fails-in-one-way"}
              ELSE (IF r.dext > (IF r.exact THEN 0 ELSE 1) THEN {"other-extrema"} ELSE {})
                   \cup (IF r.de > (IF r.exact THEN 1000 ELSE IF r.dext = 0 THEN 200000 ELSE 5000000)
                            \/ r.dl > (IF r.exact THEN 1000 ELSE IF r.dext = 0 THEN 5000000 ELSE 300000000) THEN {"other-values"} ELSE {})
=============================================================================
