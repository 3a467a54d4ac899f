------------------------------- MODULE JAlign -------------------------------
(* Conformance of recorded residual data to Align (P24).  Times are quarter  *)
(* units relative to the merger, data integers.  kind "law": pts are samples *)
(* of the data the method searches (or of the quasicircular average), c the  *)
(* quasicircular polynomial; "accept": outcome of a whole measurement with   *)
(* lead (start of the analysed data minus start of the reference data), tail *)
(* (end of the reference data minus merger) and used reference points;       *)
(* "same": results for other origins, lengths and samplings of the reference *)
(* data, compared with the plain ones.                                       *)
EXTENDS Judge
LOCAL A == INSTANCE Align WITH Origins <- {}, Emit <- FALSE, es <- 0, em <- 0, zs <- 0, ze <- 0, zm <- 0, dz <- 1,
                               ref <- 0, pc <- "", k <- 0, got <- "", res <- <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Off(r, p) == Abs(A!Res(p.e, r.c, p.t, 0) - p.got)
Edge(r) == r.lead = 0 \/ r.tail = 0 \/ \E i \in 1..Len(r.refs) : r.refs[i] = r.tail
Ok(r) == A!Accept(-r.lead, r.tail, 0, 0, 0, <<>>) /\ A!RefOk(r.tail, 0, 0, r.refs) /\ A!StartOk(-r.lead, 0, 0, 0)
Verdict(r) ==
    IF r.kind = "law" THEN IF \E i \in 1..Len(r.pts) : Off(r, r.pts[i]) > r.tol THEN {"misaligned"} ELSE {}
    ELSE IF r.kind = "accept" THEN
        IF Edge(r) THEN {}
        ELSE IF r.got = "values" /\ r.lead < 0 THEN {"starts-later"}
        ELSE IF r.got = "values" /\ r.tail < 0 THEN {"ends-before-merger"}
        ELSE IF r.got = "values" /\ ~A!RefOk(r.tail, 0, 0, r.refs) THEN {"reference-beyond-end"}
        ELSE IF r.got # "values" /\ Ok(r) THEN {"valid-rejected"}
        ELSE {}
    ELSE {x \in {"other-extrema", "other-values"} : \/ x = "other-extrema" /\ r.dext > (IF r.exact THEN 0 ELSE 1)
                                                    \/ x = "other-values" /\ r.dval > (IF r.exact THEN 10 ELSE 300000)}
=============================================================================
