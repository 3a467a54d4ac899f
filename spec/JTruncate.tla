----------------------------- MODULE JTruncate -----------------------------
(* Conformance of recorded measurements to Truncate (P08).                   *)
(* cls: "ok" | "none" | "negative" | "toomany"; before/at/after: phases (in  *)
(* micro-radians) of the last used sample and of the two samples after it    *)
(* (present when they exist); target: phase of the point.                    *)
EXTENDS Judge

Verdict(r) ==
    IF r.cls \in {"negative", "toomany"}
    THEN {c \in {"must-be-rejected"} : r.outcome = "ok"}
    ELSE IF r.outcome # "ok" THEN {"must-succeed"}
    ELSE {c \in {"prefix", "whole", "uses-excluded-sample", "loses-earlier-sample",
                 "excluded-data-matters", "last-extremum-usable"} :
          \/ c = "prefix" /\ ~r.prefix
          \/ c = "whole" /\ r.cls = "none" /\ r.used # r.total
          \/ c = "uses-excluded-sample" /\ r.cls = "ok" /\ ~(r.last < r.target)
          \/ c = "loses-earlier-sample" /\ r.cls = "ok" /\ Len(r.next) >= 2 /\ ~(r.next[2] >= r.target)
          \/ c = "excluded-data-matters" /\ Cardinality({r.variants[i] : i \in DOMAIN r.variants}) > 1
          \/ c = "last-extremum-usable" /\ r.ctl /\ ~r.lastused}
=============================================================================
