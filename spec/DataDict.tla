------------------------------ MODULE DataDict ------------------------------
(* Which waveform dictionaries are accepted, and what they are normalised to *)
(* (P09).  Decide is the documented rule; the transition system is the       *)
(* normalisation of a dictionary step by step.  Data are symbols: every key  *)
(* supplied describes the same waveform, so normalised pieces record where   *)
(* they came from and the invariants say that nothing depends on that.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

EKeys == {"t", "hlm", "amplm", "phaselm", "omegalm"}
ZKeys == {"t_zeroecc", "hlm_zeroecc", "amplm_zeroecc", "phaselm_zeroecc", "omegalm_zeroecc"}
Keys == EKeys \cup ZKeys \cup {"unknown"}

Both(K, h, a, p) == h \in K /\ (a \in K \/ p \in K)
One(K, h, a, p) == (h \in K /\ a \notin K /\ p \notin K) \/ (h \notin K /\ a \in K /\ p \in K)
ZOne(K) == One(K, "hlm_zeroecc", "amplm_zeroecc", "phaselm_zeroecc")
FullZ(K) == "t_zeroecc" \in K /\ ZOne(K)
NoZ(K) == K \cap ZKeys = {}
\* "accept", "reject", or "either" (incomplete quasicircular data that the
\* request does not need may be ignored or rejected)
Decide(K, need) ==
    IF \/ "t" \notin K \/ ~One(K, "hlm", "amplm", "phaselm")
       \/ Both(K, "hlm_zeroecc", "amplm_zeroecc", "phaselm_zeroecc")
       \/ need /\ ~FullZ(K)
    THEN "reject"
    ELSE IF FullZ(K) \/ NoZ(K) THEN "accept" ELSE "either"

----------------------------------------------------------------------------
CONSTANT Emit
VARIABLES K, need, pc, norm, status
vars == <<K, need, pc, norm, status>>

Pieces == {"t", "amp", "phase", "omega", "t_z", "amp_z", "phase_z", "omega_z"}
Init == /\ K \in SUBSET Keys /\ need \in BOOLEAN
        /\ pc = "exclusive" /\ norm = [x \in {} |-> ""] /\ status = "open"
        /\ (Emit => PrintT("@@" \o ToJson([keys |-> K, need |-> need, decide |-> Decide(K, need)])))
Go(p) == pc' = p /\ UNCHANGED <<K, need>>
Reject == status' = "reject" /\ norm' = norm /\ Go("end")
Put(f, ps) == norm' = [x \in DOMAIN f \cup DOMAIN ps |-> IF x \in DOMAIN ps THEN ps[x] ELSE f[x]]

Exclusive == /\ pc = "exclusive"
             /\ IF Both(K, "hlm", "amplm", "phaselm") \/ Both(K, "hlm_zeroecc", "amplm_zeroecc", "phaselm_zeroecc")
                THEN Reject ELSE UNCHANGED <<norm, status>> /\ Go("mandatory")
Mandatory == /\ pc = "mandatory"
             /\ IF ("hlm" \notin K /\ {"amplm", "phaselm"} \ K # {}) \/ "t" \notin K
                THEN Reject ELSE UNCHANGED <<norm, status>> /\ Go("modes")
Modes == /\ pc = "modes"
         /\ LET src == IF "hlm" \in K THEN "hlm" ELSE "amplm+phaselm"
            IN Put(norm, [x \in {"t", "amp", "phase", "omega"} |->
                          IF x = "t" THEN "t" ELSE IF x = "omega" THEN IF "omegalm" \in K THEN "omegalm" ELSE src ELSE src])
         /\ UNCHANGED status /\ Go("zero")
\* quasicircular data is used as a whole or not at all
ZeroData == /\ pc = "zero"
            /\ IF FullZ(K)
               THEN Put(norm, [x \in {"t_z", "amp_z", "phase_z", "omega_z"} |-> "z"]) /\ UNCHANGED status /\ Go("need")
               ELSE \/ UNCHANGED <<norm, status>> /\ Go("need")
                    \/ ~NoZ(K) /\ Reject
Need == /\ pc = "need"
        /\ IF need /\ "amp_z" \notin DOMAIN norm THEN Reject
           ELSE status' = "accept" /\ norm' = norm /\ Go("end")
Next == Exclusive \/ Mandatory \/ Modes \/ ZeroData \/ Need
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Decided == pc = "end" => LET d == Decide(K, need) IN status = d \/ (d = "either" /\ status \in {"accept", "reject"})
Complete == status = "accept" => {"t", "amp", "phase", "omega"} \subseteq DOMAIN norm
                                 /\ (DOMAIN norm \cap {"t_z", "amp_z", "phase_z", "omega_z"})
                                    \in {{}, {"t_z", "amp_z", "phase_z", "omega_z"}}
UnknownIgnored == Decide(K, need) = Decide(K \cup {"unknown"}, need)
OmegaOptional == "omegalm_zeroecc" \notin K => Decide(K \ {"omegalm"}, need) = Decide(K, need)
Terminates == <>(pc = "end")
=============================================================================
