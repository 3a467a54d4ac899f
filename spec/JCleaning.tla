----------------------------- MODULE JCleaning -----------------------------
(* Conformance of the extrema the code keeps to Cleaning (P07).              *)
EXTENDS Judge, Cleaning, Fixed

Idx(s) == [k \in 1..Len(s) |-> s[k].i]
LawRes(e, wp, wa) ==
    LET k == Sub(Mul(Int2F(3), e), MulS(e, MulS(e, e)))
    IN Abs(Sub(MulS(k, Add(wp, wa)), Mul(Int2F(2), Sub(wp, wa))))

Verdict(r) ==
    LET x == Clean(r.p, r.a, r.orbit)
        ep == Idx(x.p)
        ea == Idx(x.a)
        enough == Len(ep) >= 2 /\ Len(ea) >= 2
        lo == IF ep[1] > ea[1] THEN ep[1] ELSE ea[1]
        hi == IF ep[Len(ep)] < ea[Len(ea)] THEN ep[Len(ep)] ELSE ea[Len(ea)]
    IN
    IF r.outcome # "ok"
    THEN {c \in {"must-succeed", "kept-pericenters", "kept-apocenters"} :
          \/ c = "must-succeed" /\ enough /\ lo <= hi
          \/ c = "kept-pericenters" /\ r.known /\ r.kp # ep
          \/ c = "kept-apocenters" /\ r.known /\ r.ka # ea}
    ELSE {c \in {"too-few-must-fail", "kept-pericenters", "kept-apocenters", "time-range", "results-use-kept"} :
          \/ c = "too-few-must-fail" /\ ~enough
          \/ c = "kept-pericenters" /\ r.kp # ep
          \/ c = "kept-apocenters" /\ r.ka # ea
          \/ c = "time-range" /\ enough /\ ~(r.lo = lo /\ r.hi = hi)
          \/ c = "results-use-kept" /\ \E i \in DOMAIN r.s :
                ~Leq(LawRes(r.s[i].e, r.s[i].wp, r.s[i].wa), MulS(r.tol, Add(r.s[i].wp, r.s[i].wa)))}
=============================================================================
