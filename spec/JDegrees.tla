------------------------------ MODULE JDegrees ------------------------------
(* Conformance of recorded degree searches to Degrees (P15).  n: numbers of  *)
(* pericenters and apocenters; user: degrees given or <<>>; acc[j]: sequence *)
(* of <<m, n, answer>> (1 acceptable, 0 not, 2 too close to call); final[j]: *)
(* degrees or <<>> for spline; tried[j]: recorded answers, known[j] if there *)
(* is such a record; curve[j]: distance (1e-9 of its range) of the curve in  *)
(* use from the curve of the final degrees (a spline for <<>>).              *)
EXTENDS Judge
LOCAL D == INSTANCE Degrees WITH Counts <- {}, Users <- 0, B1 <- 20, B2 <- 40, B3 <- 60, Emit <- FALSE,
             n <- <<>>, user <- <<>>, k <- 0, mode <- "", deg <- <<>>, last <- <<>>, kw <- <<>>, tried <- <<>>, result <- <<>>, start <- <<>>
Answers(acc, d) == LET hit == {i \in 1..Len(acc) : acc[i][1] = d[1] /\ acc[i][2] = d[2]}
                   IN IF hit = {} THEN BOOLEAN
                      ELSE LET a == acc[CHOOSE i \in hit : TRUE][3] IN IF a = 2 THEN BOOLEAN ELSE {a = 1}
Outcomes(r, j, given) == LET Ans(d) == Answers(r.acc[j], d)
                         IN D!Search(D!StartOf(given, r.n, r.n[j], D!Bounds), r.n[j], Ans)
Tried(r, j) == {<<<<x[1], x[2]>>, x[3] = 1>> : x \in {r.tried[j][i] : i \in 1..Len(r.tried[j])}}
One(r, j, given) ==
    LET o == Outcomes(r, j, given)
    IN IF ~\E x \in o : x[1] = r.final[j] THEN {"wrong-final"}
       ELSE IF r.known[j] = 1 /\ ~\E x \in o : x[1] = r.final[j] /\ x[2] = Tried(r, j) THEN {"wrong-search"} ELSE {}
Verdict(r) == IF r.kind = "fit" THEN (IF r.d > 20000 THEN {"wrong-fit"} ELSE {})
              ELSE IF r.got # "values" THEN {"fails"}
              ELSE One(r, 1, r.user) \cup One(r, 2, r.final[1])
                   \cup (IF r.curve[1] > 1000 \/ r.curve[2] > 1000 THEN {"other-curve"} ELSE {})
                   \cup (IF r.de > 1000 THEN {"other-values"} ELSE {})
=============================================================================
