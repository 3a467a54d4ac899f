----------------------------- MODULE JNumerics ------------------------------
(* Conformance of recorded numerical steps to Numerics (P28).                *)
(* "slope": y integer samples, got 1000 times 12 times the slope per step at *)
(*   the first n of them, from the function or a measurement's frequency.    *)
(* "peak": y, off the peak's distance from the first sample in 1e-4 steps,   *)
(*   top 100 times the peak's value; far: the peak is further than ten steps *)
(* "total": modes as pairs of integers per mode and sample, got the square   *)
(*   of the total amplitude.                                                 *)
(* "poly": polynomial data through points x (all in quarter units), order k  *)
(*   asked; got 4^d times the interpolated values; "mono": monotonic         *)
(*   interpolation of integers, got 10^4 times the values.                   *)
EXTENDS Judge
LOCAL N == INSTANCE Numerics WITH Ns <- {}, Vals <- {}, Emit <- FALSE, y <- <<>>, n <- 0, i <- 0, out <- <<>>,
                                  best <- 0, pos <- 0, pc <- ""
Abs(x) == IF x < 0 THEN -x ELSE x
(* c[1] + c[2] x + ... at x/4, times 4^(Len(c)-1) *)
Poly(c, q) == N!Sum([k \in 1..Len(c) |-> c[k] * N!Pow(q, k - 1) * N!Pow(4, Len(c) - k)])
Square(ms, a) == N!Sum([m \in 1..Len(ms) |-> ms[m][a][1] * ms[m][a][1] + ms[m][a][2] * ms[m][a][2]])
Within(x, d, q, v) == LET l == N!Lower(x, q)
                          lo == 10000 * N!Min(d[l], d[l + 1])
                          hi == 10000 * N!Max(d[l], d[l + 1])
                      IN lo - 1 <= v /\ v <= hi + 1
Verdict(r) ==
    IF r.kind = "slope" THEN
        IF Len(r.got) # r.n \/ r.n > Len(r.y) \/ r.n = 0 THEN {"samples-missing"}
        ELSE IF \E a \in 1..Len(r.got) : Abs(r.got[a] - 1000 * N!Slope12(r.y, a)) > r.tol
             THEN (IF \A a \in 1..Len(r.got) : Abs(r.got[a] - 1000 * N!Slope12(r.y, a)) > r.tol => (a < 3 \/ a > Len(r.y) - 2)
                   THEN {"slope-at-the-ends"} ELSE {"slope"}) ELSE {}
    ELSE IF r.kind = "peak" THEN
        LET p == N!Centre(r.y)
            c1 == N!C1(r.y, p)
            c2 == N!C2(r.y, p)
            c0 == N!C0(r.y, p)
            off == r.off - 10000 * (p - 1)
        IN IF c2 = 0 THEN {}
           ELSE IF r.far THEN (IF Abs(c1) <= 19 * Abs(c2) THEN {"peak-time"} ELSE {})
           ELSE (IF Abs(2 * c2 * off + 10000 * c1) > 4 * Abs(c2) THEN {"peak-time"} ELSE {})
                \cup (IF r.top # -1 /\ Abs(280 * c2 * r.top - 100 * (4 * c0 * c2 - c1 * c1)) > 280 * Abs(c2) THEN {"peak-value"} ELSE {})
    ELSE IF r.kind = "total" THEN
        IF \E a \in 1..Len(r.got) : r.got[a] # Square(r.modes, a) THEN {"total-amplitude"} ELSE {}
    ELSE LET refuse == N!Refused(r.x, r.data, r.new, r.extra)
         IN IF refuse # r.refused THEN (IF refuse THEN {"accepts"} ELSE {"refuses"})
            ELSE (IF refuse THEN {}
                       ELSE IF r.kind = "poly"
                       THEN (IF Len(r.c) - 1 <= N!Order(r.k, Len(r.x)) /\ \E a \in 1..Len(r.new) : Abs(r.got[a] - Poly(r.c, r.new[a])) > 1
                             THEN {"not-reproduced"} ELSE {})
                            \cup (IF \E a \in 1..Len(r.new), b \in 1..Len(r.x) : r.new[a] = r.x[b] /\ Abs(r.got[a] - Poly(r.c, r.x[b])) > 1
                                  THEN {"misses-data"} ELSE {})
                       ELSE (IF \E a \in 1..Len(r.new), b \in 1..Len(r.x) : r.new[a] = r.x[b] /\ Abs(r.got[a] - 10000 * r.data[b]) > 1
                             THEN {"misses-data"} ELSE {})
                            \cup (IF \E a \in 1..Len(r.new) : r.x[1] <= r.new[a] /\ r.new[a] <= r.x[Len(r.x)] /\ ~Within(r.x, r.data, r.new[a], r.got[a])
                                  THEN {"overshoots"} ELSE {}))
=============================================================================
