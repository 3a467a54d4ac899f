------------------------------ MODULE JMeanAno -----------------------------
(* Conformance of recorded mean anomalies to MeanAno (P05).                  *)
(* Each point: time t, neighbouring pericenters a <= t < b (or b = t = last) *)
(* in 16-decimal numbers, value m; frac: expected num/den when TLC generated *)
(* the case.  r.variants: ids of the whole answer under changes of everything*)
(* the mean anomaly must not depend on.                                      *)
EXTENDS Judge, Fixed

\* |m (b-a) - 2pi (t-a)| <= tol (b-a), modulo a turn
LinOK(q, r) ==
    LET ba == Sub(q.b, q.a)
        lhs == Mul(q.m, ba)
        rhs == Mul(r.TwoPi, Sub(q.t, q.a))
        d == Abs(Sub(lhs, rhs))
        tol == Mul(r.tol, ba)
    IN Leq(d, tol) \/ Leq(Abs(Sub(d, Mul(r.TwoPi, ba))), tol)
\* |m den - 2pi num| <= tol den
FracOK(q, r) ==
    LET D == Int2F(q.den)
        d == Abs(Sub(Mul(q.m, D), Mul(r.TwoPi, Int2F(q.num))))
        tol == Mul(r.tol, D)
    IN Leq(d, tol) \/ Leq(Abs(Sub(d, Mul(r.TwoPi, D))), tol)

Verdict(r) ==
    IF r.outcome # "ok" THEN {"must-succeed"}
    ELSE {c \in {"range", "linear", "expected-fraction", "zero-at-pericenter", "depends-on-other-data", "count"} :
          \/ c = "count" /\ ~r.countok
          \/ c = "range" /\ \E i \in DOMAIN r.q : r.q[i].m.s < 0 \/ ~Lt(r.q[i].m, r.TwoPiUp)
          \/ c = "linear" /\ \E i \in DOMAIN r.q : ~LinOK(r.q[i], r)
          \/ c = "expected-fraction" /\ \E i \in DOMAIN r.q : r.q[i].den > 0 /\ ~FracOK(r.q[i], r)
          \/ c = "zero-at-pericenter" /\ \E i \in DOMAIN r.q :
                r.q[i].t = r.q[i].a /\ LET m == r.q[i].m IN
                ~(Leq(m, r.tol) \/ Leq(Abs(Sub(m, r.TwoPi)), r.tol))
          \/ c = "depends-on-other-data" /\ Cardinality({r.variants[i] : i \in DOMAIN r.variants}) > 1}
=============================================================================
