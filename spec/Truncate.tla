------------------------------ MODULE Truncate -----------------------------
(* Excluding the last N orbits (P08).  A waveform is a sequence of samples   *)
(* [ph |-> phase, v |-> data]; the merger is a sample.  The analysis scans   *)
(* samples from the start and stops at the sample nearest to the point N     *)
(* orbits before the merger.  Self-composition: two waveforms that agree     *)
(* before that point (and in phase) are scanned in lockstep.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Len0,        \* samples
          Incs,        \* phase increments
          Vals,        \* data values
          OrbitPh,     \* phase of an orbit
          NS           \* orbits to exclude

AllN == 99    \* keep everything
NegN == 98    \* any negative number
AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumInc(_, _)
SumInc(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumInc(s, k - 1)

\* sample nearest to the target phase (first of equals)
Nearest(ph, target) ==
    CHOOSE k \in DOMAIN ph : /\ \A j \in DOMAIN ph : AbsI(ph[k] - target) <= AbsI(ph[j] - target)
                             /\ \A j \in DOMAIN ph : AbsI(ph[j] - target) = AbsI(ph[k] - target) => k <= j
Rejected(ph, m, n) == n = NegN \/ (n < 90 /\ ph[m] - n * OrbitPh < ph[1])
\* number of samples used
Used(ph, m, n) == IF n = AllN THEN Len(ph) ELSE Nearest(ph, ph[m] - n * OrbitPh) - 1

VARIABLES ph, va, vb, m, n, pos, seenA, seenB, st
vars == <<ph, va, vb, m, n, pos, seenA, seenB, st>>

Init == /\ \E inc \in [1..Len0 -> Incs] : ph = [k \in 1..Len0 |-> SumInc(inc, k)]
        /\ m \in (Len0 - 2)..Len0 /\ n \in NS
        \* without loss of generality the first waveform carries value 0
        /\ va = [k \in 1..Len0 |-> 0]
        /\ \E keep \in {IF Rejected(ph, m, n) THEN Len0 ELSE Used(ph, m, n)} :
             \E w \in [(keep + 1)..Len0 -> Vals] :
                vb = [k \in 1..Len0 |-> IF k <= keep THEN 0 ELSE w[k]]
        /\ pos = 0 /\ seenA = <<>> /\ seenB = <<>> /\ st = "new"
Reject == st = "new" /\ Rejected(ph, m, n) /\ st' = "rejected"
          /\ UNCHANGED <<ph, va, vb, m, n, pos, seenA, seenB>>
Start == st = "new" /\ ~Rejected(ph, m, n) /\ st' = "scan"
         /\ UNCHANGED <<ph, va, vb, m, n, pos, seenA, seenB>>
Scan == /\ st = "scan" /\ pos < Used(ph, m, n)
        /\ pos' = pos + 1 /\ seenA' = Append(seenA, va[pos + 1]) /\ seenB' = Append(seenB, vb[pos + 1])
        /\ UNCHANGED <<ph, va, vb, m, n, st>>
End == st = "scan" /\ pos = Used(ph, m, n) /\ st' = "done"
       /\ UNCHANGED <<ph, va, vb, m, n, pos, seenA, seenB>>
Next == Reject \/ Start \/ Scan \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NonInterference == seenA = seenB
\* nothing from the point onward is used, and at most one earlier sample is lost
Boundary == st = "done" /\ n < 90 =>
    LET target == ph[m] - n * OrbitPh IN
    /\ pos >= 1 => ph[pos] < target
    /\ \A k \in (pos + 2)..Len0 : ph[k] >= target
KeepAll == st = "done" /\ n = AllN => pos = Len0
Zero == st = "done" /\ n = 0 => pos = m - 1
Terminates == <>(st \in {"done", "rejected"})
=============================================================================
