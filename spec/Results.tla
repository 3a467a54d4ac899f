------------------------------ MODULE Results -------------------------------
(* In-process postprocessing (P21): an ordered parallel map over samples,    *)
(* the summaries of its results, and the meaning of selection texts.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

(* results: sequence of [s, ok, v] *)
Success(res) == SelectSeq(res, LAMBDA r : r.ok)
Values(res) == [i \in 1..Len(Success(res)) |-> Success(res)[i].v]
Total(res) == Len(res)
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
(* common range of [lo, hi] of the successes; none if there is no success    *)
HasCommon(res) == Success(res) # <<>>
Lo(res) == SetMax({Success(res)[i].lo : i \in 1..Len(Success(res))})
Hi(res) == SetMin({Success(res)[i].hi : i \in 1..Len(Success(res))})

(* selection texts, parsed into kind and numbers *)
RECURSIVE Steps(_, _, _)
Steps(a, b, c) == IF (c > 0 /\ a >= b) \/ (c < 0 /\ a <= b) THEN <<>> ELSE <<a>> \o Steps(a + c, b, c)
Meaning(x) == IF x.kind = "range" THEN Steps(x.n[1], x.n[2], x.n[3]) ELSE x.n     \* "one" and "list"

(* histogram of values over increasing edges, the last bin closed *)
Hist(vals, e) == [i \in 1..Len(e) - 1 |-> Cardinality({k \in 1..Len(vals) :
                    e[i] <= vals[k] /\ (vals[k] < e[i + 1] \/ (i = Len(e) - 1 /\ vals[k] = e[i + 1]))})]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

CONSTANTS Jobs, Lens, Samples, Emit
VARIABLES J, req, bad, next, run, slot, order
vars == <<J, req, bad, next, run, slot, order>>
Val(s) == [s |-> s, ok |-> s \notin bad, v |-> IF s \in bad THEN 0 ELSE 10 * s, lo |-> s, hi |-> 20 - s]
Init == /\ J \in Jobs /\ \E n \in Lens : req \in [1..n -> Samples]
        /\ bad \in SUBSET Samples /\ next = 1 /\ run = {} /\ slot = [i \in {} |-> 0] /\ order = <<>>
Take == next <= Len(req) /\ Cardinality(run) < J /\ run' = run \cup {next} /\ next' = next + 1
        /\ UNCHANGED <<J, req, bad, slot, order>>
Finish(i) == /\ i \in run /\ run' = run \ {i} /\ slot' = (i :> Val(req[i])) @@ slot /\ order' = Append(order, i)
             /\ UNCHANGED <<J, req, bad, next>>
             /\ (Emit /\ Len(order) + 1 = Len(req) => PrintT("@@" \o ToJson([J |-> J, req |-> req, bad |-> bad, order |-> order'])))
Next == Take \/ \E i \in 1..Len(req) : Finish(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == next > Len(req) /\ run = {}
Res == [i \in 1..Len(req) |-> slot[i]]
Ordered == Done => Res = [i \in 1..Len(req) |-> Val(req[i])]
(* a failing sample affects no other: what the others give does not depend on bad *)
Isolated == Done => \A i \in 1..Len(req) : req[i] \notin bad => Res[i].ok /\ Res[i].v = 10 * req[i]
Summary == Done => /\ Values(Res) = [i \in 1..Len(Success(Res)) |-> 10 * Success(Res)[i].s]
                   /\ Len(Values(Res)) = Cardinality({i \in 1..Len(req) : req[i] \notin bad})
                   /\ (HasCommon(Res) => \A i \in 1..Len(Res) : Res[i].ok => Res[i].lo <= Lo(Res) /\ Hi(Res) <= Res[i].hi)
(* edges around the successful values lose and repeat none *)
Histogram == Done => \A m \in 1..39 : Sum(Hist(Values(Res), <<0, m, 40>>)) = Len(Values(Res))
Terminates == <>Done
=============================================================================
