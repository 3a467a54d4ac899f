------------------------------- MODULE Judge -------------------------------
(* Generic conformance monitor: walks over recorded executions of the real   *)
(* code and lets a specification module decide each of them.  A property     *)
(* module EXTENDS this one and defines  Verdict(r): the set of names of the  *)
(* clauses of the specification that record r violates (empty = conforming); *)
(* its cfg substitutes  Failed <- Verdict.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Failed(_)

Records == JsonDeserialize(IOEnv.RECORDS)

Lanes == 8

VARIABLES lane, pos, count

jvars == <<lane, pos, count>>

JInit == /\ lane \in 1..Lanes
         /\ pos = lane
         /\ count = 0

JStep == /\ pos <= Len(Records)
         /\ LET f == Failed(Records[pos])
            IN IF f = {} THEN TRUE ELSE PrintT(<<"BAD", pos, f>>)
         /\ pos' = pos + Lanes
         /\ count' = count + 1
         /\ UNCHANGED lane

JDone == /\ pos > Len(Records)
         /\ count >= 0
         /\ PrintT(<<"DONE", lane, count>>)
         /\ count' = -1
         /\ UNCHANGED <<lane, pos>>

JNext == JStep \/ JDone

JSpec == JInit /\ [][JNext]_jvars
=============================================================================
