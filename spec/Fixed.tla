------------------------------- MODULE Fixed -------------------------------
(* Signed fixed-point numbers of arbitrary precision: TLC's integers have 32 *)
(* bits, the code computes with binary64.  A number is [s |-> -1|0|1,        *)
(* m |-> limbs], limbs little-endian in base 10^4; the scale (number of      *)
(* decimals) is by convention of the user, products add scales.              *)
EXTENDS Integers, Sequences

B == 10000

LOCAL Max2(a, b) == IF a > b THEN a ELSE b
LOCAL At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE Norm(_)
Norm(m) == IF m = <<>> THEN m
           ELSE IF m[Len(m)] = 0 THEN Norm(SubSeq(m, 1, Len(m) - 1)) ELSE m

RECURSIVE NatCmpAt(_, _, _)
NatCmpAt(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] > b[i] THEN 1
                     ELSE IF a[i] < b[i] THEN -1 ELSE NatCmpAt(a, b, i - 1)
NatCmp(a, b) == IF Len(a) > Len(b) THEN 1
                ELSE IF Len(a) < Len(b) THEN -1 ELSE NatCmpAt(a, b, Len(a))

RECURSIVE NatAddAt(_, _, _, _, _)
NatAddAt(a, b, i, c, acc) ==
    IF i > Max2(Len(a), Len(b))
    THEN IF c = 0 THEN acc ELSE Append(acc, c)
    ELSE LET v == At(a, i) + At(b, i) + c
         IN NatAddAt(a, b, i + 1, v \div B, Append(acc, v % B))
NatAdd(a, b) == NatAddAt(a, b, 1, 0, <<>>)

RECURSIVE NatSubAt(_, _, _, _, _)
NatSubAt(a, b, i, c, acc) ==
    IF i > Len(a) THEN Norm(acc)
    ELSE LET v == a[i] - At(b, i) - c
         IN IF v < 0 THEN NatSubAt(a, b, i + 1, 1, Append(acc, v + B))
            ELSE NatSubAt(a, b, i + 1, 0, Append(acc, v))
NatSub(a, b) == NatSubAt(a, b, 1, 0, <<>>)      \* a >= b

RECURSIVE NatMul1(_, _, _, _, _)
NatMul1(a, d, i, c, acc) ==
    IF i > Len(a) THEN IF c = 0 THEN acc ELSE Append(acc, c)
    ELSE LET v == a[i] * d + c IN NatMul1(a, d, i + 1, v \div B, Append(acc, v % B))

RECURSIVE NatMulAt(_, _, _, _)
NatMulAt(a, b, j, acc) ==
    IF j > Len(b) THEN Norm(acc)
    ELSE NatMulAt(a, b, j + 1,
                  IF b[j] = 0 THEN acc
                  ELSE NatAdd(acc, [k \in 1..(j - 1) |-> 0] \o NatMul1(a, b[j], 1, 0, <<>>)))
NatMul(a, b) == NatMulAt(a, b, 1, <<>>)

----------------------------------------------------------------------------
Zero == [s |-> 0, m |-> <<>>]
RECURSIVE NatOf(_)
NatOf(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o NatOf(n \div B)
Int2F(n) == [s |-> IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0,
             m |-> NatOf(IF n < 0 THEN -n ELSE n)]

Neg(x) == [s |-> -x.s, m |-> x.m]
Abs(x) == [s |-> IF x.s = 0 THEN 0 ELSE 1, m |-> x.m]

Add(x, y) ==
    IF x.s = 0 THEN y ELSE IF y.s = 0 THEN x
    ELSE IF x.s = y.s THEN [s |-> x.s, m |-> NatAdd(x.m, y.m)]
    ELSE LET c == NatCmp(x.m, y.m)
         IN IF c = 0 THEN Zero
            ELSE IF c > 0 THEN [s |-> x.s, m |-> NatSub(x.m, y.m)]
            ELSE [s |-> y.s, m |-> NatSub(y.m, x.m)]
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == IF x.s = 0 \/ y.s = 0 THEN Zero
             ELSE [s |-> x.s * y.s, m |-> NatMul(x.m, y.m)]
Cmp(x, y) == LET d == Sub(x, y) IN d.s
Lt(x, y) == Cmp(x, y) < 0
Leq(x, y) == Cmp(x, y) <= 0
MaxF(x, y) == IF Lt(x, y) THEN y ELSE x
MinF(x, y) == IF Lt(y, x) THEN y ELSE x
\* multiply by 10^(4k)
Shift(x, k) == IF x.s = 0 THEN x ELSE [s |-> x.s, m |-> [i \in 1..k |-> 0] \o x.m]
\* drop the k lowest limbs (divide by 10^(4k), truncating)
Drop(x, k) == IF Len(x.m) <= k THEN Zero ELSE [s |-> x.s, m |-> SubSeq(x.m, k + 1, Len(x.m))]
\* arithmetic at a fixed scale of 16 decimals
One16 == [s |-> 1, m |-> <<0, 0, 0, 0, 1>>]
MulS(x, y) == Drop(Mul(x, y), 4)
RECURSIVE PolyAt(_, _, _)
PolyAt(c, u, i) == IF i = Len(c) THEN c[i] ELSE Add(c[i], MulS(u, PolyAt(c, u, i + 1)))
Poly(c, u) == PolyAt(c, u, 1)          \* c[1] + c[2] u + c[3] u^2 ...
\* |x - y| <= tol
Near(x, y, tol) == Leq(Abs(Sub(x, y)), tol)
=============================================================================
