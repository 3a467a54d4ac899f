------------------------------ MODULE Postproc ------------------------------
(* What a postprocessing run guarantees (P19, P20), as predicates over one   *)
(* history: the samples requested, and for every run on the same output      *)
(* folder the samples evaluated (in order), the rows the checkpoint held     *)
(* before and after, and the rows of the results file.                       *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>>
            ELSE LET d == Dedup(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)]
                 IN IF x \in Range(d) THEN d ELSE Append(d, x)
(* every requested sample once, in the order of its first request            *)
Sel(req) == Dedup(req)
NoRepeat(s) == Cardinality(Range(s)) = Len(s)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

(* a sample the posterior does not have                                       *)
Unknown == 99
Bad(req) == Unknown \in Range(req)

(* one run, at any moment *)
Once(evals) == NoRepeat(evals)
OnlySelected(evals, req) == Range(evals) \subseteq Range(req)
NotAgain(evals, before) == Range(evals) \cap before = {}
Durable(before, after) == before \subseteq after
Honest(evals, before, after) == after \subseteq before \cup Range(evals)
(* samples evaluated but not yet checkpointed: those of an interval, and     *)
(* what is out with the workers                                              *)
Bound(E, P, B) == IF P = 1 THEN E ELSE E + (P - 1) * B
Recent(evals, after, E, P, B) == E = 0 \/ Cardinality(Range(evals) \ after) <= Bound(E, P, B)
(* a run that ended by itself *)
(* a run of a bad selection ends in an error, on every process, without rows  *)
Ends(req) == IF Bad(req) THEN "failed" ELSE "end"
AllDone(evals, before, req) == Range(req) \subseteq before \cup Range(evals)
RowsRight(rows, req) == rows = Sel(req)
=============================================================================
