----------------------------- MODULE RefSelect -----------------------------
(* Selection of reference points (P03 times, P04 frequencies).               *)
(* Times/frequencies are represented by integers that preserve order and     *)
(* equality (ranks of the binary64 values).                                  *)
(*                                                                           *)
(* State machine: the request is consumed from its head; an admissible point *)
(* is appended to the answer, an inadmissible one is dropped; an empty       *)
(* answer is an error.                                                       *)
EXTENDS Integers, Sequences, FiniteSets

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RangeOf(s) == {s[i] : i \in DOMAIN s}

\* the admissible interval is defined by the extrema alone
TMin(peri, apo) == MaxOf({MinOf(RangeOf(peri)), MinOf(RangeOf(apo))})
TMax(peri, apo) == MinOf({MaxOf(RangeOf(peri)), MaxOf(RangeOf(apo))})

TimeOK(x, peri, apo) == TMin(peri, apo) <= x /\ x <= TMax(peri, apo)

\* the answer to a time request
TimeAnswer(req, peri, apo) ==
    LET lo == TMin(peri, apo)
        hi == TMax(peri, apo)
        ok(x) == lo <= x /\ x <= hi
    IN SelectSeq(req, ok)

\* admissible answers to a frequency request: [lo, hi), hi itself optional
FreqMust(req, lo, hi) == LET ok(x) == lo <= x /\ x < hi IN SelectSeq(req, ok)
FreqMay(req, lo, hi) == LET ok(x) == lo <= x /\ x <= hi IN SelectSeq(req, ok)

IsSubseqOf(s, r) == \* greedy embedding
    LET RECURSIVE Emb(_, _)
        Emb(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                     ELSE IF Head(a) = Head(b) THEN Emb(Tail(a), Tail(b))
                     ELSE Emb(a, Tail(b))
    IN Emb(s, r)
=============================================================================
