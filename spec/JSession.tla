------------------------------ MODULE JSession -----------------------------
(* Trace conformance to Session (P01, P02).  A record is one history played  *)
(* in one process: ops with, for each, the id of the observed response and   *)
(* the digest id of all caller objects after it.  base maps keys to what a   *)
(* fresh process answered.                                                   *)
EXTENDS Judge
LOCAL S == INSTANCE Session WITH MaxLen <- 0, Emit <- FALSE, Discipline <- TRUE,
    cell <- 0, own <- 0, run <- 0, st <- 0, hist <- 0, resp <- 0

Lookup(r, key) ==
    LET s == {i \in DOMAIN r.base : r.base[i].k = key[1] /\ r.base[i].r = key[2] /\ r.base[i].a = key[3]}
    IN IF s = {} THEN -1 ELSE r.base[CHOOSE i \in s : TRUE].id

RECURSIVE Walk(_, _, _)
Walk(r, i, st) ==
    IF i > Len(r.ops) THEN {}
    ELSE LET op == r.ops[i]
             d == IF op.k = "m" THEN op.def ELSE r.defs[st.last]
             key == S!Key(st, op, d)
             \* a plot of the average shows the cached one: compared only
             \* when that is the default average
             skip == op.k = "p" /\ st.cache \notin {0, d}
         IN (IF skip \/ op.resp = Lookup(r, key) THEN {} ELSE {op.k \o "-response"})
            \cup (IF op.objs = r.objs0 THEN {} ELSE {"caller-object-changed"})
            \cup Walk(r, i + 1, S!After(st, op, op.freq, d, op.fails))

Verdict(r) == Walk(r, 1, S!Start)
=============================================================================
