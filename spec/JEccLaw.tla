------------------------------ MODULE JEccLaw ------------------------------
(* Conformance of recorded eccentricities to EccLaw (P06).  The envelopes    *)
(* are polynomials in u (16-decimal numbers), sampled by the code only at    *)
(* the extrema.                                                              *)
EXTENDS Judge, Fixed

LawRes(e, wp, wa) ==
    LET k == Sub(Mul(Int2F(3), e), MulS(e, MulS(e, e)))
    IN Abs(Sub(MulS(k, Add(wp, wa)), Mul(Int2F(2), Sub(wp, wa))))

LawOK(q, r) ==
    LET wp == Poly(r.cp, q.u)
        wa == Poly(r.ca, q.u)
    IN Leq(LawRes(q.e, wp, wa), MulS(r.tol, Add(wp, wa)))
SampleOK(q, r) == Leq(LawRes(q.e, q.wp, q.wa), MulS(r.tol, Add(q.wp, q.wa)))

Verdict(r) ==
    IF r.outcome # "ok" THEN {"must-succeed"}
    ELSE {c \in {"law", "branch", "count", "envelope-curves", "depends-on-samples-only", "grows"} :
          \/ c = "count" /\ ~r.countok
          \/ c = "branch" /\ \E i \in DOMAIN r.q : Lt(One16, Abs(r.q[i].e))
          \/ c = "law" /\ r.poly /\ \E i \in DOMAIN r.q : ~LawOK(r.q[i], r)
          \/ c = "envelope-curves" /\ \E i \in DOMAIN r.s : ~SampleOK(r.s[i], r)
          \/ c = "depends-on-samples-only" /\ Cardinality({r.variants[i] : i \in DOMAIN r.variants}) > 1
          \* r.chain: e at one time for increasing contrast
          \/ c = "grows" /\ \E i \in 1..(Len(r.chain) - 1) : ~Lt(r.chain[i], r.chain[i + 1])}
=============================================================================
