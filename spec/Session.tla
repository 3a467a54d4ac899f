------------------------------- MODULE Session ------------------------------
(* A process in which a caller issues measurements, queries and plots over   *)
(* shared objects (P01, P02).                                                *)
(*  - Caller cells (waveform dictionary, its arrays, options, references)    *)
(*    are bound by a measurement; the analysis works in steps and may write  *)
(*    a cell only after it made its own copy.  Cells never change.           *)
(*  - The response to an operation is Key(op, state): what a fresh process   *)
(*    answers.  The only permitted memory is the cached average frequency    *)
(*    of one analysis, which get_fref_bounds is documented to reuse.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen,      \* length of histories
          Emit,        \* print histories for replay
          Discipline   \* TRUE: write only own copies.  FALSE: model mutant

Cells == {"wave", "modes", "opts", "refs"}

\* abstract requests: domain, average (0: none computed by the measurement),
\* default average of the analysis, outcome
Reqs == {1, 2, 3, 4}
Freq(r) == r \in {2, 3}
AvgOf(r) == IF r = 3 THEN 2 ELSE 1
Fails(r) == r = 4

Ops == {[k |-> "m", r |-> r, a |-> 0] : r \in Reqs}
       \cup {[k |-> "b", r |-> 0, a |-> a] : a \in 0..2}      \* frequency range
       \cup {[k |-> "a", r |-> 0, a |-> a] : a \in 1..2}      \* average
       \cup {[k |-> "q", r |-> 0, a |-> a] : a \in 1..2}      \* ecc, mean anomaly
       \cup {[k |-> "p", r |-> 0, a |-> 1]}                   \* plot

----------------------------------------------------------------------------
(* The response function, shared with JSession.  st = [last, cache].         *)
Def(a, d) == IF a = 0 THEN d ELSE a
Key(st, op, default) ==
    CASE op.k = "m" -> <<"m", op.r, 0>>
      [] op.k = "b" -> <<"b", st.last, IF st.cache # 0 THEN st.cache ELSE Def(op.a, default)>>
      [] OTHER -> <<op.k, st.last, op.a>>
\* plots that show the average compute and keep it, with the default average
After(st, op, freq, default, fails) ==
    CASE op.k = "m" -> IF fails THEN st ELSE [last |-> op.r, cache |-> IF freq THEN default ELSE 0]
      [] op.k = "b" -> IF st.cache # 0 \/ fails THEN st ELSE [st EXCEPT !.cache = Def(op.a, default)]
      [] op.k = "p" -> IF st.cache # 0 \/ fails THEN st ELSE [st EXCEPT !.cache = default]
      [] OTHER -> st
Start == [last |-> 0, cache |-> 0]

----------------------------------------------------------------------------
VARIABLES cell,      \* content version of the caller's cells
          own,       \* cells of which the running analysis has its own copy
          run,       \* operation being executed, or none
          st, hist, resp
vars == <<cell, own, run, st, hist, resp>>
None == [k |-> "none", r |-> 0, a |-> 0]

Init == /\ cell = [c \in Cells |-> 0] /\ own = {} /\ run = None
        /\ st = Start /\ hist = <<>> /\ resp = <<>>

Default(s, op) == AvgOf(IF op.k = "m" THEN op.r ELSE s.last)
Call(op) == /\ run = None /\ Len(hist) < MaxLen
            /\ op.k # "m" => st.last # 0
            /\ run' = op /\ own' = {}
            /\ UNCHANGED <<cell, st, hist, resp>>
Copy(c) == /\ run.k = "m" /\ c \notin own /\ own' = own \cup {c}
           /\ UNCHANGED <<cell, run, st, hist, resp>>
\* an analysis step that modifies data; on an own copy the caller sees nothing
Write(c) == /\ run.k = "m" /\ (Discipline => c \in own)
            /\ cell' = IF c \in own THEN cell ELSE [cell EXCEPT ![c] = 1]
            /\ UNCHANGED <<own, run, st, hist, resp>>
Return == /\ run # None
          /\ LET key == Key(st, run, Default(st, run))
             IN \* the response is computed from the cells as they are now
                resp' = Append(resp, <<key, IF run.k = "m" THEN cell ELSE [c \in Cells |-> 0]>>)
          /\ st' = After(st, run, Freq(run.r), Default(st, run), run.k = "m" /\ Fails(run.r))
          /\ hist' = Append(hist, run)
          /\ run' = None /\ own' = {} /\ UNCHANGED cell
          /\ (Emit /\ Len(hist') = MaxLen => PrintT("@@" \o ToJson(hist')))
Next == \/ \E op \in Ops : Call(op)
        \/ \E c \in Cells : Copy(c) \/ Write(c)
        \/ Return
Spec == Init /\ [][Next]_vars

Pristine == cell = [c \in Cells |-> 0]
\* same request, same response, wherever it occurs in the history
Functional == \A i, j \in DOMAIN resp : resp[i][1] = resp[j][1] => resp[i] = resp[j]
\* a query's answer other than the range does not depend on earlier queries
QueriesPure == \A i \in DOMAIN hist : hist[i].k \in {"a", "q", "m"} =>
    resp[i][1][3] = hist[i].a
=============================================================================
