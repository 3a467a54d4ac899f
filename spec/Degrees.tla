------------------------------ MODULE Degrees ------------------------------
(* The adaptive search for the degrees of the rational fits through the      *)
(* pericenters (k = 1) and the apocenters (k = 2), P15.  Whether the fit of  *)
(* given degrees is acceptable (monotonic) is decided by the data: here each *)
(* fit answers nondeterministically.  Degrees are <<numerator, denominator>>;*)
(* <<>> stands for "not given" and for the spline fallback.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Under(d, n) == d[1] + d[2] + 1 >= n
Estimate(c, B) == IF c <= B[1] THEN <<3, 3>> ELSE IF c <= B[2] THEN <<4, 4>> ELSE IF c <= B[3] THEN <<5, 5>> ELSE <<6, 6>>
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Red(_, _, _)
Red(d, n, denom) == IF ~Under(d, n) THEN d
                    ELSE IF denom /\ d[2] > 0 THEN Red(<<d[1], d[2] - 1>>, n, FALSE)
                    ELSE IF d[1] > 0 THEN Red(<<d[1] - 1, d[2]>>, n, ~denom)
                    ELSE Red(d, n, ~denom)
Reduce(d, n) == Red(d, n, TRUE)
Lower(d) == <<Max(d[1] - 1, 1), Max(d[2] - 1, 1)>>
Raise(d) == <<d[1] + 1, d[2] + 1>>
Lowest(d) == d[1] <= 1 /\ d[2] <= 1
StartOf(given, counts, n, B) == Reduce(IF given = <<>> THEN Estimate(Max(counts[1], counts[2]), B) ELSE given, n)

(* All outcomes <<final degrees, tried degrees with their answers>> of one   *)
(* search; Ans(d) is the set of possible answers (TRUE: acceptable).         *)
RECURSIVE Down(_, _, _), Up(_, _, _, _)
Down(d, Ans(_), tried) ==
    UNION {LET tr == tried \cup {<<d, a>>}
           IN IF a THEN {<<d, tr>>} ELSE IF Lowest(d) THEN {<<<<>>, tr>>} ELSE Down(Lower(d), Ans, tr) : a \in Ans(d)}
Up(last, n, Ans(_), tried) ==
    LET d == Raise(last)
    IN IF Under(d, n) THEN {<<last, tried>>}
       ELSE UNION {LET tr == tried \cup {<<d, a>>} IN IF a THEN Up(d, n, Ans, tr) ELSE {<<last, tr>>} : a \in Ans(d)}
Search(d, n, Ans(_)) ==
    UNION {IF a THEN Up(d, n, Ans, {<<d, TRUE>>})
           ELSE IF Lowest(d) THEN {<<<<>>, {<<d, FALSE>>}>>} ELSE Down(Lower(d), Ans, {<<d, FALSE>>}) : a \in Ans(d)}

CONSTANTS Counts, Users, B1, B2, B3, Emit
Bounds == <<B1, B2, B3>>
UserSet == CASE Users = 0 -> {<<>>} [] Users = 1 -> {<<>>, <<1, 1>>, <<2, 2>>, <<4, 4>>, <<5, 3>>, <<2, 4>>, <<1, 3>>, <<3, 1>>}
             [] OTHER -> {<<>>} \cup ((1..5) \X (1..5))
VARIABLES n, user, k, mode, deg, last, kw, tried, result, start
vars == <<n, user, k, mode, deg, last, kw, tried, result, start>>
Init == /\ n \in Counts \X Counts /\ (n[1] - n[2]) \in {-1, 0, 1} /\ user \in UserSet
        /\ k = 1 /\ mode = "start" /\ deg = <<>> /\ last = <<>> /\ kw = user
        /\ tried = <<{}, {}>> /\ result = <<>> /\ start = <<>>
Start == /\ mode = "start" /\ k <= 2
         /\ deg' = StartOf(kw, n, n[k], Bounds) /\ start' = Append(start, deg') /\ mode' = "first"
         /\ UNCHANGED <<n, user, k, last, kw, tried, result>>
Finish(d) == /\ result' = Append(result, d) /\ kw' = d /\ k' = k + 1 /\ mode' = "start" /\ deg' = <<>> /\ last' = <<>>
Fit(ok) ==
    /\ mode \in {"first", "lower", "raise"}
    /\ tried' = [tried EXCEPT ![k] = @ \cup {<<deg, ok>>}]
    /\ UNCHANGED <<n, user, start>>
    /\ IF mode = "raise" /\ ~ok THEN Finish(last)
       ELSE IF ~ok THEN IF Lowest(deg) THEN Finish(<<>>)
                        ELSE deg' = Lower(deg) /\ mode' = "lower" /\ UNCHANGED <<k, last, kw, result>>
       ELSE IF mode = "lower" THEN Finish(deg)
       ELSE IF Under(Raise(deg), n[k]) THEN Finish(deg)
       ELSE deg' = Raise(deg) /\ last' = deg /\ mode' = "raise" /\ UNCHANGED <<k, kw, result>>
Done == k = 3
Next == Start \/ (\E ok \in BOOLEAN : Fit(ok))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Good(j) == {x[1] : x \in {y \in tried[j] : y[2]}}
Bad(j) == {x[1] : x \in {y \in tried[j] : ~y[2]}}
Over == 1..Len(result)
(* nothing is tried twice, so no answer contradicts another *)
Once == \A j \in 1..2 : Good(j) \cap Bad(j) = {}
Acceptable == \A j \in Over : result[j] # <<>> => result[j] \in Good(j) /\ \A d \in Good(j) : d[1] <= result[j][1] /\ d[2] <= result[j][2]
SplineIff == \A j \in Over : result[j] = <<>> <=> (Good(j) = {} /\ \E d \in Bad(j) : Lowest(d))
(* the next step up is unacceptable or has too few points *)
Maximal == \A j \in Over : (result[j] # <<>> /\ start[j] \in Good(j)) => (Raise(result[j]) \in Bad(j) \/ Under(Raise(result[j]), n[j]))
(* enough points, unless a degree of zero had to be raised to one *)
Determined == \A j \in Over : (result[j] # <<>> /\ start[j][1] > 0 /\ start[j][2] > 0) => ~Under(result[j], n[j])
NeverBelowOne == \A j \in 1..Len(start) : \A d \in (Good(j) \cup Bad(j)) \ {start[j]} : d[1] >= 1 /\ d[2] >= 1
ApoStartsFromPeri == Len(start) = 2 => start[2] = StartOf(result[1], n, n[2], Bounds)
(* the machine and the operator used to judge recorded searches agree *)
SameAsOperator == \A j \in Over : LET Ans(d) == {a \in BOOLEAN : <<d, a>> \in tried[j]} IN Search(start[j], n[j], Ans) = {<<result[j], tried[j]>>}
Terminates == <>Done
Emitted == (Done /\ Emit) => PrintT("@@" \o ToJson([n |-> n, user |-> user, tried |-> [j \in 1..2 |-> {<<x[1][1], x[1][2], IF x[2] THEN 1 ELSE 0>> : x \in tried[j]}],
                                                    result |-> result]))
=============================================================================
