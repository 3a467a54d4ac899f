------------------------------ MODULE Options -------------------------------
(* What the options of a measurement mean (P29): options left out have their *)
(* documented defaults, key by key and level by level; the options of the    *)
(* extrema finder select among the local maxima as documented.               *)
(* Samples are numbered from 1.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A z \in S : x <= z
SetMax(S) == CHOOSE x \in S : \A z \in S : z <= x
None == -999999

---------------------------------------------------------------------------
(* Layers.  An option is 0 where it was left out; d are the defaults.        *)
Effective(u, d) == [k \in DOMAIN d |-> IF k \in DOMAIN u /\ u[k] # 0 THEN u[k] ELSE d[k]]
SameRequest(u, v, d) == \A l \in DOMAIN d : Effective(u[l], d[l]) = Effective(v[l], d[l])

---------------------------------------------------------------------------
(* The finder, declared.                                                     *)
(* A maximum is a stretch l..r of equal samples whose two neighbours are     *)
(* smaller; it is listed at its middle (the earlier one of two).             *)
Stretch(y, m) == LET l == SetMin({i \in 1..m : \A j \in i..m : y[j] = y[m]})
                     r == SetMax({i \in m..Len(y) : \A j \in m..i : y[j] = y[m]})
                 IN <<l, r>>
IsMaximum(y, m) == LET s == Stretch(y, m)
                   IN /\ s[1] > 1 /\ s[2] < Len(y)
                      /\ y[s[1] - 1] < y[m] /\ y[s[2] + 1] < y[m]
                      /\ m = (s[1] + s[2]) \div 2
Maxima(y) == {m \in 1..Len(y) : IsMaximum(y, m)}
Size(y, m) == LET s == Stretch(y, m) IN s[2] - s[1] + 1
Threshold(y, m) == Min(y[m] - y[m - 1], y[m] - y[m + 1])
(* the stretch around m in which nothing is higher, its lowest places on     *)
(* either side closest to m, and the height of m over the higher of these    *)
Left(y, m) == LET S == {i \in 1..(m - 1) : y[i] > y[m]} IN IF S = {} THEN 1 ELSE SetMax(S) + 1
Right(y, m) == LET S == {i \in (m + 1)..Len(y) : y[i] > y[m]} IN IF S = {} THEN Len(y) ELSE SetMin(S) - 1
LeftBase(y, m) == SetMax({i \in Left(y, m)..m : \A j \in Left(y, m)..m : y[i] <= y[j]})
RightBase(y, m) == SetMin({i \in m..Right(y, m) : \A j \in m..Right(y, m) : y[i] <= y[j]})
Prominence(y, m) == y[m] - Max(y[LeftBase(y, m)], y[RightBase(y, m)])
(* how the width at y[m] - prominence * rel/4 compares with w: +1 wider,     *)
(* 0 equal, -1 narrower.  The line cuts the data between a and a+1 on the    *)
(* left and between b-1 and b on the right.                                  *)
CompareWidth(y, m, rel, w) ==
    LET h == 4 * y[m] - Prominence(y, m) * rel
        a == SetMax({i \in LeftBase(y, m)..m : 4 * y[i] <= h} \cup {LeftBase(y, m)})
        b == SetMin({i \in m..RightBase(y, m) : 4 * y[i] <= h} \cup {RightBase(y, m)})
        (* fractions of a step to be taken off *)
        na == IF 4 * y[a] < h THEN h - 4 * y[a] ELSE 0
        da == IF 4 * y[a] < h THEN 4 * (y[a + 1] - y[a]) ELSE 1
        nb == IF 4 * y[b] < h THEN h - 4 * y[b] ELSE 0
        db == IF 4 * y[b] < h THEN 4 * (y[b - 1] - y[b]) ELSE 1
        v == (b - a - w) * da * db - na * db - nb * da
    IN IF v > 0 THEN 1 ELSE IF v = 0 THEN 0 ELSE -1
(* highest first, each keeps those closer than d away from being listed      *)
RECURSIVE Spaced(_, _, _, _)
Spaced(y, S, kept, d) == IF S = {} THEN kept
                         ELSE LET m == CHOOSE m \in S : \A z \in S : y[z] < y[m] \/ (y[z] = y[m] /\ z <= m)
                              IN Spaced(y, {z \in S : z # m /\ Max(z - m, m - z) >= d}, kept \cup {m}, d)
(* o: size, height (smallest, largest), threshold, distance, prominence,     *)
(* width, rel, in this order; None where no such condition is made           *)
Before(y, o) == LET A == {m \in Maxima(y) : /\ o.size = None \/ Size(y, m) >= o.size
                                            /\ o.low = None \/ y[m] >= o.low
                                            /\ o.high = None \/ y[m] <= o.high
                                            /\ o.threshold = None \/ Threshold(y, m) >= o.threshold}
                    B == IF o.distance = None THEN A ELSE Spaced(y, A, {}, o.distance)
                IN {m \in B : o.prominence = None \/ Prominence(y, m) >= o.prominence}
(* at exactly the asked width, rounding decides                              *)
Must(y, o) == {m \in Before(y, o) : o.width = None \/ CompareWidth(y, m, o.rel, o.width) = 1}
May(y, o) == {m \in Before(y, o) : o.width = None \/ CompareWidth(y, m, o.rel, o.width) >= 0}
Negative(y) == [i \in 1..Len(y) |-> -y[i]]

---------------------------------------------------------------------------
(* The default width: a quarter of the samples between two orbits and one    *)
(* orbit before the merger; u units of phase are one orbit.                  *)
Dist(a, b) == IF a < b THEN b - a ELSE a - b
Earlier(ph, m, k, u) == CHOOSE i \in 1..Len(ph) :
    /\ \A j \in 1..Len(ph) : Dist(ph[i], ph[m] - k * u) <= Dist(ph[j], ph[m] - k * u)
    /\ \A j \in 1..(i - 1) : Dist(ph[i], ph[m] - k * u) < Dist(ph[j], ph[m] - k * u)
DefaultWidth(ph, m, u) == (Earlier(ph, m, 1, u) - Earlier(ph, m, 2, u)) \div 4

(* Apocenters taken midway between pericenters. *)
Midway(p) == [i \in 1..(Len(p) - 1) |-> (p[i] + p[i + 1]) \div 2]

---------------------------------------------------------------------------
(* Two machines: options are completed key by key, in any order; and one     *)
(* scan over the samples lists the maxima and, walking outwards from each,   *)
(* their prominences.                                                        *)
CONSTANTS Keys, Defaults, N, Vals, Emit
VARIABLES mode, user, full, todo, y, i, start, list, walk, prom, pc
vars == <<mode, user, full, todo, y, i, start, list, walk, prom, pc>>
D == [k \in Keys |-> Defaults]
InitOptions == /\ mode = "options" /\ user \in [Keys -> 0..(Defaults + 1)]
               /\ full = user /\ todo = Keys /\ pc = "fill"
               /\ y = <<>> /\ i = 0 /\ start = 0 /\ list = <<>> /\ walk = 0 /\ prom = <<>>
               /\ (Emit => PrintT("@@" \o ToJson([user |-> user])))
InitFinder == /\ mode = "finder" /\ y \in [1..N -> Vals] /\ pc = "scan"
              /\ i = 2 /\ start = 0 /\ list = <<>> /\ walk = 0 /\ prom = <<>>
              /\ user = <<>> /\ full = <<>> /\ todo = {}
Init == InitOptions \/ InitFinder
Fill == /\ pc = "fill" /\ todo # {}
        /\ \E k \in todo : /\ todo' = todo \ {k}
                           /\ full' = IF full[k] = 0 THEN [full EXCEPT ![k] = D[k]] ELSE full
        /\ UNCHANGED <<mode, user, y, i, start, list, walk, prom, pc>>
Filled == /\ pc = "fill" /\ todo = {} /\ pc' = "done"
          /\ UNCHANGED <<mode, user, full, todo, y, i, start, list, walk, prom>>
Scan == /\ pc = "scan" /\ i <= N
        /\ IF y[i] > y[i - 1] THEN start' = i /\ list' = list
           ELSE IF y[i] < y[i - 1] THEN start' = 0 /\ list' = (IF start > 0 THEN Append(list, (start + i - 1) \div 2) ELSE list)
           ELSE UNCHANGED <<start, list>>
        /\ i' = i + 1
        /\ UNCHANGED <<mode, user, full, todo, y, walk, prom, pc>>
Scanned == /\ pc = "scan" /\ i > N /\ pc' = "walk" /\ walk' = 1
           /\ UNCHANGED <<mode, user, full, todo, y, i, start, list, prom>>
RECURSIVE Lowest(_, _, _, _)
Lowest(m, j, step, low) == IF j < 1 \/ j > N \/ y[j] > y[m] THEN low
                           ELSE Lowest(m, j + step, step, Min(low, y[j]))
Walk == /\ pc = "walk" /\ walk <= Len(list)
        /\ LET m == list[walk]
           IN prom' = Append(prom, y[m] - Max(Lowest(m, m, -1, y[m]), Lowest(m, m, 1, y[m])))
        /\ walk' = walk + 1
        /\ UNCHANGED <<mode, user, full, todo, y, i, start, list, pc>>
Walked == /\ pc = "walk" /\ walk > Len(list) /\ pc' = "done"
          /\ UNCHANGED <<mode, user, full, todo, y, i, start, list, walk, prom>>
Next == Fill \/ Filled \/ Scan \/ Scanned \/ Walk \/ Walked
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done(k) == pc = "done" /\ mode = k
Completed == Done("options") => full = Effective(user, D)
(* giving a default explicitly, or completing twice, changes nothing *)
Idempotent == Done("options") => /\ Effective(full, D) = full
                                 /\ \A k \in Keys : user[k] = 0 => Effective([user EXCEPT ![k] = D[k]], D) = full
(* one option never touches another *)
KeyByKey == Done("options") => \A k \in Keys : user[k] # 0 => full[k] = user[k]
Free == [size |-> None, low |-> None, high |-> None, threshold |-> None, distance |-> None, prominence |-> None, width |-> None, rel |-> 2]
Found == Done("finder") => {list[k] : k \in 1..Len(list)} = Maxima(y) /\ Must(y, Free) = Maxima(y)
Prominences == Done("finder") => \A k \in 1..Len(list) : prom[k] = Prominence(y, list[k]) /\ prom[k] > 0
(* conditions only take away, and stricter ones take away more *)
Stricter == Done("finder") => \A p \in 1..3 : /\ Must(y, [Free EXCEPT !.prominence = p + 1]) \subseteq Must(y, [Free EXCEPT !.prominence = p])
                                              /\ May(y, [Free EXCEPT !.width = p + 1]) \subseteq Must(y, [Free EXCEPT !.width = p])
                                              /\ Must(y, [Free EXCEPT !.low = p + 1]) \subseteq Must(y, [Free EXCEPT !.low = p])
(* lower lines are longer *)
Wider == Done("finder") => \A w \in 1..3, r \in 1..3 : Must(y, [Free EXCEPT !.width = w, !.rel = r]) \subseteq May(y, [Free EXCEPT !.width = w, !.rel = r + 1])
(* the distance is kept, and the highest always stays *)
Apart == Done("finder") => \A d \in 1..4 : LET S == Must(y, [Free EXCEPT !.distance = d])
                                           IN /\ \A p, q \in S : p # q => Dist(p, q) >= d
                                              /\ \A m \in Maxima(y) : \E q \in S : y[q] >= y[m]
(* maxima and minima alternate *)
Alternate == Done("finder") => \A p, q \in Maxima(y) : p < q => \E m \in Maxima(Negative(y)) : p < m /\ m < q
Terminates == <>(pc = "done")
=============================================================================
