------------------------------- MODULE Units --------------------------------
(* Origins and units (P14).  A waveform is t0, unit u, amplitudes a, phases  *)
(* p (or complex modes: phases modulo 8 that reading has to unwrap); time of *)
(* sample k is t0 + u*k.  A session transforms waveform and request step by  *)
(* step; what is measured (merger, analysed part, extrema, mean anomaly,     *)
(* ratio of the frequencies at neighbouring extrema, the average frequency)  *)
(* must stay the same, and times and frequencies must follow the transform.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Levels, K, MaxOps, Emit
VARIABLES t0, u, a, p, rep, ref, ops, first
vars == <<t0, u, a, p, rep, ref, ops, first>>
Turn == 8
(* fractions <<num, den>> with den > 0 *)
Eq(x, y) == x[1] * y[2] = y[1] * x[2]
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
(* phases as they are read: one unwrapping pass over complex modes *)
RECURSIVE Pass(_, _)
Pass(x, done) == IF Len(done) = Len(x) THEN done
                 ELSE LET b == done[Len(done)] d == (x[Len(done) + 1] - b) % Turn
                      IN Pass(x, Append(done, b + (IF d >= Turn \div 2 THEN d - Turn ELSE d)))
Phases == IF rep = "h" THEN LET w == [k \in 1..K |-> p[k] % Turn] IN Pass(w, <<w[1]>>) ELSE p
Time(k) == t0 + u * k
MaxOf(S) == CHOOSE k \in S : \A j \in S : j <= k
MinOf(S) == CHOOSE k \in S : \A j \in S : j >= k
Merger == CHOOSE k \in 1..K : \A j \in 1..K : a[j] <= a[k] /\ (a[j] = a[k] => k <= j)
Measure ==
    LET ph == Phases
        m == Merger
        in == {k \in 1..K : ph[m] - ph[k] >= 4}
        peri == {k \in in : k > 1 /\ k + 1 \in in /\ a[k] > a[k - 1] /\ a[k] > a[k + 1]}
        apo == {k \in in : k > 1 /\ k + 1 \in in /\ a[k] < a[k - 1] /\ a[k] < a[k + 1]}
        before == {k \in peri : Time(k) <= ref}
        after == {k \in peri : Time(k) > ref}
        ok == before # {} /\ after # {} /\ apo # {}
        lo == MaxOf(before)
        hi == MinOf(after)
        mid == MinOf({k \in apo : k > lo} \cup {K})
        freq(k) == <<ph[k] - ph[k - 1], u>>
    IN [ok |-> ok, peri |-> peri, apo |-> apo,
        l |-> IF ok THEN <<ref - Time(lo), Time(hi) - Time(lo)>> ELSE <<0, 1>>,
        e |-> IF ok THEN <<freq(lo)[1] * freq(mid)[2], freq(lo)[2] * freq(mid)[1]>> ELSE <<0, 1>>,
        avg |-> IF Cardinality(peri) < 2 THEN <<0, 1>>
                ELSE <<ph[MaxOf(peri)] - ph[MinOf(peri)], Time(MaxOf(peri)) - Time(MinOf(peri))>>]
Init == /\ a \in {s \o <<9, 1>> : s \in [1..(K - 2) -> Levels]}
        /\ p = [k \in 1..K |-> 1 + Sum([j \in 1..K |-> IF a[j] > 3 THEN 3 ELSE a[j]], k)]
        /\ t0 = 0 /\ u = 2 /\ rep \in {"h", "ap"} /\ ref \in {2 * k + 1 : k \in 1..K} /\ ops = <<>>
        /\ first = Measure
Room == Len(ops) < MaxOps
Shift == \E s \in {-7, 12} : /\ t0' = t0 + s /\ ref' = ref + s /\ ops' = Append(ops, "shift") /\ UNCHANGED <<u, a, p, rep, first>>
Unit == \E c \in {2, 5} : /\ t0' = t0 * c /\ u' = u * c /\ ref' = ref * c /\ ops' = Append(ops, "unit") /\ UNCHANGED <<a, p, rep, first>>
Amp == \E c \in {3, 10} : /\ a' = [k \in 1..K |-> a[k] * c] /\ ops' = Append(ops, "amp") /\ UNCHANGED <<t0, u, p, rep, ref, first>>
Ph == \E c \in {-5, 3} : /\ p' = [k \in 1..K |-> p[k] + c] /\ ops' = Append(ops, IF rep = "h" THEN "rotate" ELSE "phase") /\ UNCHANGED <<t0, u, a, rep, ref, first>>
Next == Room /\ (Shift \/ Unit \/ Amp \/ Ph)
Spec == Init /\ [][Next]_vars

(* nothing dimensionless changes; the average frequency carries the inverse  *)
(* unit (u = 2 at first)                                                     *)
Invariant == LET x == Measure y == first
             IN /\ x.ok = y.ok /\ Eq(x.l, y.l) /\ Eq(x.e, y.e) /\ x.peri = y.peri /\ x.apo = y.apo
                /\ Eq(<<x.avg[1] * u, x.avg[2] * 2>>, y.avg)
Emitted == (Emit /\ Len(ops) = MaxOps /\ \A k \in 1..(K - 2) : a[k] % a[1] = 0) => PrintT("@@" \o ToJson([rep |-> rep, ops |-> ops]))
=============================================================================
