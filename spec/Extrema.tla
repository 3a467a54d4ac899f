------------------------------ MODULE Extrema -------------------------------
(* The extrema a method reports on a clean inspiral (P16).  The true extrema *)
(* of one kind are numbered 1..M in time; what is reported has to be a run   *)
(* of consecutive numbers that starts with the first of the analysed part    *)
(* and ends close to its end.  Reported and Alternating state this; the      *)
(* state machine is the marching search of the fits methods, which looks at  *)
(* windows of at most N extrema before and N + 1 after a reference position  *)
(* and keeps one extremum per round.  Extremum k sits at position 2k; the    *)
(* last Lost extrema (close to the end) may be missed by any one window.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Orbits,      \* number of extrema per window side
          Sizes,       \* numbers of extrema in the data
          Losses,      \* how many extrema at the end are hard to see
          Kinds, Eccs, Samplings, Starts, Lengths, Emit

VARIABLES n, m, lost, ref, list, extra, round, done
vars == <<n, m, lost, ref, list, extra, round, done>>

Consecutive(s) == \A i \in 1..(Len(s) - 1) : s[i + 1] = s[i] + 1
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i + 1] > s[i]
(* pericenter k and apocenter k follow each other: p1 a1 p2 a2 ...           *)
Alternating(p, a) ==
    \/ Len(p) = 0 \/ Len(a) = 0
    \/ /\ a[1] - p[1] \in {0, -1}
       /\ a[Len(a)] - p[Len(p)] \in {0, -1}

Left(r) == Cardinality({k \in 1..m : 2 * k < r})
(* the reference moves right until there are n extrema before it             *)
RECURSIVE Moved(_)
Moved(r) == IF Left(r) < n /\ m - Left(r) >= 2 THEN Moved(2 * (Left(r) + 1) + 1) ELSE r
(* windows the inner search may return around position r                     *)
Windows(r) ==
    LET nl == Left(r)
        lo == IF nl >= n THEN nl - n + 1 ELSE 1
        hi == IF nl + n + 1 > m THEN m ELSE nl + n + 1
        least == IF hi <= m - lost THEN hi
                 ELSE IF m - lost < lo - 1 THEN lo - 1 ELSE m - lost
    IN {[i \in 1..(h - lo + 1) |-> lo + i - 1] : h \in least..hi}
After(s, from, r) == SelectSeq(SubSeq(s, from, Len(s)), LAMBDA k : 2 * k > r)

Init == /\ n \in Orbits /\ m \in Sizes /\ lost \in Losses
        /\ lost < m
        \* 1.1 (n - 1) orbits after the start, extrema at least one orbit apart
        /\ ref \in (2 * n - 1)..(2 * n + 1)
        /\ list = <<>> /\ extra = <<>> /\ round = 0 /\ done = FALSE
March(r, w) ==
    LET many == Len(w) >= 2 * n - 1
        has == Len(w) >= n + 1
        ahead == has /\ 2 * w[n + 1] > r
        end == Len(w) < 2 * n + 1 \/ ~ahead
        first == IF round = 0 /\ many THEN SubSeq(w, 1, n) ELSE <<>>
        next == IF many /\ ahead THEN <<w[n + 1]>> ELSE <<>>
        rest == IF many /\ end THEN After(w, n + 2, r) ELSE <<>>
    IN /\ list' = list \o (IF many THEN first \o next \o rest ELSE extra)
       /\ extra' = IF many /\ ahead THEN SubSeq(w, n + 2, Len(w)) ELSE extra
       /\ done' = end
       /\ round' = round + 1
       /\ ref' = IF end THEN r ELSE w[n + 1] + w[n + 2]
Step == /\ ~done
        /\ LET r == Moved(ref) IN \E w \in Windows(r) : March(r, w)
        /\ UNCHANGED <<n, m, lost>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

Terminates == <>done
Order == Consecutive(list) /\ (list # <<>> => list[1] = 1)
(* nothing is lost but what no window showed                                 *)
Reach == done => \/ Len(list) >= m - lost - 1
                 \/ m - lost < 2 * n
(* cases for the harness                                                     *)
Case == [kind : Kinds, ecc : Eccs, sampling : Samplings, start : Starts, length : Lengths]
Resolvable(x) == x.kind = "direct" => x.ecc >= 2
Emitted == (Emit /\ round = 0 /\ m = CHOOSE x \in Sizes : TRUE)
           => \A x \in {y \in Case : Resolvable(y)} : PrintT("@@" \o ToJson(x))
=============================================================================
