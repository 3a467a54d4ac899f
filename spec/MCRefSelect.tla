---------------------------- MODULE MCRefSelect ----------------------------
(* Exhaustive design model of the selection, and generator of the requests   *)
(* replayed into the code: positions are classes relative to the extrema.    *)
EXTENDS RefSelect, TLC, Json

CONSTANTS MaxLen,    \* longest request
          Positions, \* position classes 1..K in increasing time
          Lo, Hi,    \* classes of tmin and tmax
          Emit

VARIABLES req, todo, ans, st
vars == <<req, todo, ans, st>>

Reqs == UNION {[1..n -> Positions] : n \in 1..MaxLen}

Init == /\ req \in Reqs /\ todo = req /\ ans = <<>> /\ st = "run"

Keep == /\ st = "run" /\ todo # <<>> /\ Lo <= Head(todo) /\ Head(todo) <= Hi
        /\ ans' = Append(ans, Head(todo)) /\ todo' = Tail(todo)
        /\ UNCHANGED <<req, st>>
Drop == /\ st = "run" /\ todo # <<>> /\ ~(Lo <= Head(todo) /\ Head(todo) <= Hi)
        /\ todo' = Tail(todo) /\ UNCHANGED <<req, ans, st>>
Finish == /\ st = "run" /\ todo = <<>>
          /\ st' = IF ans = <<>> THEN "error" ELSE "ok"
          /\ (Emit => PrintT("@@" \o ToJson([req |-> req, st |-> st', ans |-> ans])))
          /\ UNCHANGED <<req, todo, ans>>
Done == st # "run" /\ UNCHANGED vars

Next == Keep \/ Drop \/ Finish \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* properties of the design
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Order == IsSubseqOf(ans, req)
Multiplicity == st # "run" =>
    \A x \in Positions : Count(ans, x) = IF Lo <= x /\ x <= Hi THEN Count(req, x) ELSE 0
Matches == st # "run" => ans = TimeAnswer(req, <<Lo, Hi>>, <<Lo, Hi>>)
Error == (st = "error") <=> (st # "run" /\ \A i \in DOMAIN req : req[i] < Lo \/ req[i] > Hi)
Ends == <>(st # "run")
=============================================================================
