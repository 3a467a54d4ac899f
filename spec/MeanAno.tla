------------------------------ MODULE MeanAno ------------------------------
(* Mean anomaly (P05).  The system moves along time; the mean anomaly is     *)
(* zero when a pericenter is passed and advances uniformly until the next.   *)
(* Design model: time advances in ticks, the anomaly is the fraction         *)
(* num/den of a turn.  TLC checks range, reset, uniform rate and locality,   *)
(* and emits every pattern of pericenter gaps with the expected fractions.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Gaps,      \* possible gaps between pericenters, in ticks
          MaxPeri,   \* 2..MaxPeri pericenters
          Emit

VARIABLES gaps, now, k, num, den, hist
vars == <<gaps, now, k, num, den, hist>>

Patterns == UNION {[1..n -> Gaps] : n \in 1..(MaxPeri - 1)}

RECURSIVE SumTo(_, _)
SumTo(g, i) == IF i = 0 THEN 0 ELSE g[i] + SumTo(g, i - 1)
Peri(g, i) == SumTo(g, i - 1)                \* time of pericenter i = 1..Len(g)+1

Init == /\ gaps \in Patterns
        /\ now = 0 /\ k = 1 /\ num = 0 /\ den = gaps[1]
        /\ hist = <<0>>

\* one tick inside an interval: uniform advance
Advance == /\ k <= Len(gaps) /\ num + 1 < den
           /\ now' = now + 1 /\ num' = num + 1
           /\ hist' = Append(hist, num + 1)
           /\ UNCHANGED <<gaps, k, den>>
\* the tick that reaches the next pericenter: back to zero
Reset == /\ k <= Len(gaps) /\ num + 1 = den
         /\ now' = now + 1 /\ k' = k + 1 /\ num' = 0
         /\ den' = IF k + 1 <= Len(gaps) THEN gaps[k + 1] ELSE den
         /\ hist' = Append(hist, 0)
         /\ UNCHANGED gaps
Stop == /\ k = Len(gaps) + 1
        /\ (Emit => PrintT("@@" \o ToJson([gaps |-> gaps, num |-> hist])))
        /\ UNCHANGED vars

Next == Advance \/ Reset \/ Stop
Spec == Init /\ [][Next]_vars

Range == 0 <= num /\ num < den
Linear == k <= Len(gaps) => /\ den = Peri(gaps, k + 1) - Peri(gaps, k)
                            /\ num = now - Peri(gaps, k)
ZeroAtPeri == (\E i \in 1..(Len(gaps) + 1) : now = Peri(gaps, i)) <=> num = 0
\* locality: the history inside interval j depends on gaps[j] only
Local == \A j \in 1..(k - 1) : \A x \in 0..(gaps[j] - 1) : hist[Peri(gaps, j) + x + 1] = x
=============================================================================
