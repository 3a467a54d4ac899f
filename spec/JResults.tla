------------------------------ MODULE JResults ------------------------------
(* Conformance of the in-process postprocessing to Results (P21).            *)
(* kind "run": req, res (one entry per result: sample, success, value code,  *)
(* second value code, own: equals the direct outcome for that sample),       *)
(* kind "one": a single measurement outside the map (an injection): ok, own, *)
(* expect.  kind "hist": ranks of the values shown and of the edges, counts. *)
(* expect (per entry of req), summary.  kind "bounds" adds common range as   *)
(* ranks.  kind "text": parsed selection x and what the code made of it.     *)
EXTENDS Judge
LOCAL R == INSTANCE Results WITH Jobs <- {}, Lens <- {}, Samples <- {}, Emit <- FALSE, J <- 0, req <- <<>>, bad <- {}, next <- 0,
                                 run <- {}, slot <- <<>>, order <- <<>>
Run(r) ==
    (IF Len(r.res) = Len(r.req) THEN {} ELSE {"count"})
    \cup (IF \A i \in 1..Len(r.res) : i <= Len(r.req) => r.res[i].s = r.req[i] THEN {} ELSE {"order"})
    \cup (IF \A i \in 1..Len(r.res) : i <= Len(r.req) => r.res[i].ok = r.expect[i] THEN {} ELSE {"status"})
    \cup (IF \A i \in 1..Len(r.res) : r.res[i].own THEN {} ELSE {"value"})
    \cup (IF r.sum.total = R!Total(r.res) /\ r.sum.count = Len(R!Success(r.res)) THEN {} ELSE {"summary-count"})
    \cup (IF r.sum.v = R!Values(r.res)
             /\ r.sum.v2 = [i \in 1..Len(R!Success(r.res)) |-> R!Success(r.res)[i].v2] THEN {} ELSE {"summary-values"})
    \cup (IF r.df = [i \in 1..Len(r.res) |-> <<r.res[i].s, r.res[i].ok>>] THEN {} ELSE {"table"})
Common(r) == IF ~R!HasCommon(r.res) THEN (IF r.common.some THEN {"common"} ELSE {})
             ELSE IF r.common.some /\ r.common.lo = R!Lo(r.res) /\ r.common.hi = R!Hi(r.res) THEN {} ELSE {"common"}
Verdict(r) == IF r.kind = "text" THEN
                 IF r.x.kind = "error" THEN (IF r.got.kind = "error" THEN {} ELSE {"text-accepted"})
                 ELSE IF r.x.kind = "all" THEN (IF r.got.kind = "all" THEN {} ELSE {"text"})
                 ELSE IF r.got.kind = "list" /\ r.got.n = R!Meaning(r.x) THEN {} ELSE {"text"}
              ELSE IF r.kind = "one" THEN (IF r.ok = r.expect THEN {} ELSE {"status"}) \cup (IF r.own THEN {} ELSE {"value"})
              ELSE IF r.kind = "hist" THEN (IF r.counts = R!Hist(r.vals, r.edges) THEN {} ELSE {"histogram"})
              ELSE IF r.kind = "refuse" THEN (IF r.got = "error" THEN {} ELSE {"not-refused"})
              ELSE Run(r) \cup (IF r.kind = "bounds" THEN Common(r) ELSE {})
=============================================================================
