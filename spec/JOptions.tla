------------------------------ MODULE JOptions ------------------------------
(* Conformance of recorded measurements to Options (P29).                    *)
(* "find": y the searched integers, apo: minima are searched, given the      *)
(*   options (0 left out, else 1 + value, None for no condition; rel in      *)
(*   quarters), ph, merger, unit phases of all samples, got the locations    *)
(* "pair": two requests, per level and key 0 left out, 1 the documented      *)
(*   default, 2 another value; same: results agree                           *)
(* "order": k the order of a spline asked (0: left out), orders those whose  *)
(*   spline goes with the values returned                                    *)
(* "midway": peri, apo locations of a measurement                            *)
EXTENDS Judge
LOCAL O == INSTANCE Options WITH Keys <- {}, Defaults <- 1, N <- 0, Vals <- {}, Emit <- FALSE, mode <- "", user <- <<>>, full <- <<>>, todo <- {},
                                 y <- <<>>, i <- 0, start <- 0, list <- <<>>, walk <- 0, prom <- <<>>, pc <- ""
(* documented defaults: no conditions but that on the width *)
Asked(g, w) == LET e(k) == IF g[k] = 0 THEN O!None ELSE IF g[k] = O!None THEN O!None ELSE g[k] - 1
               IN [size |-> e("size"), low |-> e("low"), high |-> e("high"), threshold |-> e("threshold"), distance |-> e("distance"),
                   prominence |-> e("prominence"), width |-> IF g.width = 0 THEN w ELSE e("width"), rel |-> IF g.rel = 0 THEN 2 ELSE g.rel - 1]
Listed(r) == {r.got[j] : j \in 1..Len(r.got)}
Ones(u) == [l \in DOMAIN u |-> [k \in DOMAIN u[l] |-> 1]]
Verdict(r) ==
    IF r.kind = "find" THEN
        LET z == IF r.apo THEN O!Negative(r.y) ELSE r.y
            o == Asked(r.given, O!DefaultWidth(r.ph, r.merger, r.unit))
        IN (IF \E j \in 1..(Len(r.got) - 1) : r.got[j] >= r.got[j + 1] THEN {"order-of-extrema"} ELSE {})
           \cup (IF O!Must(z, o) \subseteq Listed(r) THEN {} ELSE {"extremum-missing"})
           \cup (IF Listed(r) \subseteq O!May(z, o) THEN {} ELSE {"extremum-not-asked-for"})
    ELSE IF r.kind = "pair" THEN
        IF O!SameRequest(r.a, r.b, Ones(r.a)) /\ ~r.same THEN {"default"} ELSE {}
    ELSE IF r.kind = "order" THEN
        IF (IF r.k = 0 THEN 3 ELSE r.k) \in {r.orders[j] : j \in 1..Len(r.orders)} THEN {} ELSE {"spline-order"}
    ELSE IF r.kind = "midway" THEN
        LET m == O!Midway(r.peri)
            (* some at either end may have been dropped *)
        IN IF Len(r.apo) > 1 /\ \E s \in 1..(Len(m) - Len(r.apo) + 1) : r.apo = SubSeq(m, s, s + Len(r.apo) - 1) THEN {} ELSE {"midway"}
    ELSE {"fails"}
=============================================================================
