------------------------------ MODULE Numerics ------------------------------
(* The numerical steps every measurement is built from (P28), in exact       *)
(* integer arithmetic: the frequency as derivative of the phase, the merger  *)
(* as peak of the total amplitude, and interpolation between samples.        *)
(* Samples are numbered from 1.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

---------------------------------------------------------------------------
(* Derivative, declared: at sample i the slope of the polynomial of degree   *)
(* four through the five samples closest to i.  First(i, n) is the first of  *)
(* these.  Newton's form: 12 times the slope of                              *)
(*   sum_k  d_k * binomial(u, k),  d_k forward differences, u = i - First    *)
First(i, n) == Max(1, Min(i - 2, n - 4))
Diff(y, j, k) == LET RECURSIVE D(_, _)
                     D(a, m) == IF m = 0 THEN y[a] ELSE D(a + 1, m - 1) - D(a, m - 1)
                 IN D(j, k)
(* 12 times the derivatives of binomial(u, 1..4) at u = 0..4                 *)
Slopes == << <<12, -6, 4, -3>>, <<12, 6, -2, 1>>, <<12, 18, 4, -1>>, <<12, 30, 22, 3>>, <<12, 42, 52, 25>> >>
Slope12(y, i) == LET j == First(i, Len(y))
                     c == Slopes[i - j + 1]
                 IN Sum([k \in 1..4 |-> c[k] * Diff(y, j, k)])
(* 12 times the derivative of u^k at u *)
Mono12(u, k) == IF k = 0 THEN 0 ELSE 12 * k * Pow(u, k - 1)

---------------------------------------------------------------------------
(* Peak, declared: p (first sample with the largest value, moved so that two *)
(* samples remain on either side); the parabola c0 + c1 u + c2 u^2 with the  *)
(* smallest sum of squared deviations from the five samples around p.        *)
(* Multiplied by 70:  C0 = 34 S0 - 10 S2,  C1 = 7 S1,  C2 = 5 S2 - 10 S0     *)
(* with Sk = sum u^k y.  The peak lies at -C1 / (2 C2).                      *)
ArgMax(y) == CHOOSE i \in 1..Len(y) : /\ \A j \in 1..Len(y) : y[j] <= y[i]
                                      /\ \A j \in 1..(i - 1) : y[j] < y[i]
Centre(y) == Max(3, Min(Len(y) - 2, ArgMax(y)))
Mom(y, p, k) == Sum([m \in 1..5 |-> Pow(m - 3, k) * y[p + m - 3]])
C0(y, p) == 34 * Mom(y, p, 0) - 10 * Mom(y, p, 2)
C1(y, p) == 7 * Mom(y, p, 1)
C2(y, p) == 5 * Mom(y, p, 2) - 10 * Mom(y, p, 0)

---------------------------------------------------------------------------
(* Interpolation: refused unless the data are as many as the points, the     *)
(* points increase, there are two or more, and (unless asked to extrapolate) *)
(* no new point lies outside.  A spline of order k through n points has      *)
(* order min(k, n - 1) and reproduces polynomials up to that degree.         *)
Increasing(x) == \A i \in 1..(Len(x) - 1) : x[i] < x[i + 1]
Refused(x, y, new, extra) == \/ Len(x) # Len(y)
                             \/ ~Increasing(x)
                             \/ Len(x) < 2
                             \/ ~extra /\ \E i \in 1..Len(new) : new[i] < x[1] \/ new[i] > x[Len(x)]
Order(k, n) == Min(k, n - 1)
(* the interval of a point, for the bounds of the monotonic interpolant      *)
Lower(x, q) == CHOOSE i \in 1..(Len(x) - 1) : x[i] <= q /\ q <= x[i + 1]

---------------------------------------------------------------------------
CONSTANTS Ns, Vals, Emit
VARIABLES y, n, i, out, best, pos, pc
vars == <<y, n, i, out, best, pos, pc>>
(* one pass over the samples, as an implementation does it: the interior by  *)
(* one stencil, the two samples at each end by one-sided ones; the running   *)
(* maximum is kept.                                                          *)
Stencil(a) == IF a = 1 THEN -25 * y[1] + 48 * y[2] - 36 * y[3] + 16 * y[4] - 3 * y[5]
              ELSE IF a = 2 THEN -3 * y[1] - 10 * y[2] + 18 * y[3] - 6 * y[4] + y[5]
              ELSE IF a = n THEN 3 * y[n - 4] - 16 * y[n - 3] + 36 * y[n - 2] - 48 * y[n - 1] + 25 * y[n]
              ELSE IF a = n - 1 THEN -y[n - 4] + 6 * y[n - 3] - 18 * y[n - 2] + 10 * y[n - 1] + 3 * y[n]
              ELSE y[a - 2] - 8 * y[a - 1] + 8 * y[a + 1] - y[a + 2]
Init == /\ n \in Ns
        /\ y \in [1..n -> Vals] \cup {[a \in 1..n |-> Pow(a - s, k)] : s \in 0..n, k \in 0..4}
        /\ i = 1 /\ out = <<>> /\ best = 0 /\ pos = 0 /\ pc = "scan"
        /\ (Emit => PrintT("@@" \o ToJson([y |-> y])))
Scan == /\ pc = "scan" /\ i <= n
        /\ out' = Append(out, Stencil(i))
        /\ IF pos = 0 \/ y[i] > best THEN best' = y[i] /\ pos' = i ELSE UNCHANGED <<best, pos>>
        /\ i' = i + 1 /\ UNCHANGED <<y, n, pc>>
Finish == pc = "scan" /\ i > n /\ pc' = "done" /\ pos' = (IF pos < 3 THEN 3 ELSE IF pos > n - 2 THEN n - 2 ELSE pos)
          /\ UNCHANGED <<y, n, i, out, best>>
Next == Scan \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc = "done")

SlopeRight == \A a \in 1..Len(out) : out[a] = Slope12(y, a)
(* exact for powers up to the fourth, at every sample, wherever the origin   *)
ExactPowers == pc = "done" => \A k \in 0..4 : \A s \in 0..n :
                   (\A a \in 1..n : y[a] = Pow(a - s, k)) => \A a \in 1..n : out[a] = Mono12(a - s, k)
(* running time backwards turns slopes around *)
Mirror == pc = "done" => \A a \in 1..n : Slope12(Rev(y), a) = -out[n + 1 - a]
PeakRight == pc = "done" => pos = Centre(y)
(* the residual of the fit is orthogonal to 1, u, u^2: least squares         *)
Fitted(p, u) == C0(y, p) + C1(y, p) * u + C2(y, p) * u * u
LeastSquares == pc = "done" => \A k \in 0..2 :
                   Sum([m \in 1..5 |-> Pow(m - 3, k) * (70 * y[pos + m - 3] - Fitted(pos, m - 3))]) = 0
(* parabolas are reproduced *)
Parabola == pc = "done" => \A s \in 0..n : (\A a \in 1..n : y[a] = Pow(a - s, 2)) =>
                   /\ C2(y, pos) = 70
                   /\ C1(y, pos) = 140 * (pos - s)
                   /\ C0(y, pos) = 70 * Pow(pos - s, 2)
(* around a maximum the samples of a concave function put the vertex inside  *)
(* the window                                                                *)
Near == pc = "done" /\ ArgMax(y) = pos /\ C2(y, pos) < 0
        /\ (\A m \in -1..1 : 2 * y[pos + m] >= y[pos + m - 1] + y[pos + m + 1])
        => 4 * (-C2(y, pos)) >= (IF C1(y, pos) < 0 THEN -C1(y, pos) ELSE C1(y, pos))
=============================================================================
