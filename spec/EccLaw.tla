------------------------------ MODULE EccLaw -------------------------------
(* Eccentricity from the two envelopes (P06).                                *)
(*   (3e - e^3)(wp + wa) = 2(wp - wa),  -1 <= e <= 1 (physical branch)       *)
(* Design model over a grid: e = n/N, contrast wp/wa = a/b; the defining     *)
(* relation has exactly one branch value, e grows with the contrast, e = 0   *)
(* iff wp = wa, and e < 1 iff wa > 0.  A walker increases wp (the contrast)  *)
(* and the measured e must follow.                                           *)
EXTENDS Integers, FiniteSets

CONSTANTS N,        \* grid of eccentricities n/N
          W         \* grid of frequencies 1..W

\* sign of  (3 n N^2 - n^3)(wp+wa) - 2 N^3 (wp-wa):  residual of e = n/N
Res(n, wp, wa) == (3 * n * N * N - n * n * n) * (wp + wa) - 2 * N * N * N * (wp - wa)

\* largest grid value not above the solution
E(wp, wa) == CHOOSE n \in -N..N : Res(n, wp, wa) <= 0 /\ (n = N \/ Res(n + 1, wp, wa) > 0)

VARIABLES wp, wa, e
Init == /\ wa \in 0..W /\ wp = 1 /\ e = E(wp, wa)
Raise == /\ wp < W /\ wp' = wp + 1 /\ e' = E(wp', wa) /\ UNCHANGED wa
Spec == Init /\ [][Raise]_<<wp, wa, e>>

\* the residual is strictly increasing in e on the branch: unique solution
Unique == \A n \in -N..(N - 1) : Res(n, wp, wa) < Res(n + 1, wp, wa)
ZeroIff == (wp = wa => e = 0) /\ (wp > wa => e >= 0) /\ (wp < wa => e < 0)
Bounded == /\ e <= N /\ (wa = 0 => e = N)
Grows == [][e' >= e]_<<wp, wa, e>>
Scale == wp * 2 <= W /\ wa * 2 <= W => E(2 * wp, 2 * wa) = E(wp, wa)
=============================================================================
