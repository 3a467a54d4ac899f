------------------------------ MODULE JAverage -----------------------------
(* Conformance of reported averages to Average (P17).                        *)
(* k: averages in time order of their midpoints as recorded from the         *)
(* extrema: a,b times, fa,fb phases, v value reported at the midpoint sample *)
(* (has = FALSE: the midpoint is no sample).                                 *)
EXTENDS Judge, Fixed

AvgNum(q) == Sub(q.fb, q.fa)
AvgDen(q) == Sub(q.b, q.a)
AvgLess(p, q) == Lt(Mul(AvgNum(p), AvgDen(q)), Mul(AvgNum(q), AvgDen(p)))
Incr(r) == \A i \in 1..(Len(r.k) - 1) : AvgLess(r.k[i], r.k[i + 1])
Sorted(r) == \A i \in 1..(Len(r.k) - 1) :
    Lt(Add(r.k[i].a, r.k[i].b), Add(r.k[i + 1].a, r.k[i + 1].b))

Verdict(r) ==
    LET mustfail == r.exact /\ r.method = "orbit" /\ Sorted(r) /\ ~Incr(r)
        mustfail2 == r.oracle = "falls"
    IN IF r.setup # "ok" THEN {"setup"}
       ELSE IF r.outcome # "ok"
       THEN IF mustfail \/ mustfail2 \/ r.oracle = "unclear" THEN {} ELSE {"must-succeed"}
       ELSE {c \in {"nonincreasing-must-be-an-error", "value", "curve", "range", "times", "result-increasing"} :
             \/ c = "nonincreasing-must-be-an-error" /\ (mustfail \/ mustfail2)
             \/ c = "value" /\ r.method = "orbit" /\ \E i \in DOMAIN r.k :
                   r.k[i].has /\ ~Leq(Abs(Sub(Mul(r.k[i].v, AvgDen(r.k[i])), Shift(AvgNum(r.k[i]), 4))),
                                      Mul(r.tol, Shift(AvgDen(r.k[i]), 0)))
             \/ c = "curve" /\ r.dev > r.devtol
             \/ c = "range" /\ (r.blo # r.alo \/ r.bhi # r.ahi)
             \/ c = "times" /\ ~r.times
             \/ c = "result-increasing" /\ r.freq /\ ~r.inc}
=============================================================================
