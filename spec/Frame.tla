------------------------------- MODULE Frame --------------------------------
(* The frame of precessing modes (P22).  A system is a sequence of samples   *)
(* with content c[k] (what the coprecessing modes say) seen in a frame       *)
(* rotated by r[k], an element of the cyclic group Z4; a fixed rotation g of *)
(* the inertial frame adds g to every r[k].  The data dictionary holds, per  *)
(* tag (eccentric, quasicircular), some of h (complex modes), ap (amplitude  *)
(* and phase) and w (frequency), each value being <<content, rotation>>.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Tags == {"ecc", "zero"}
Need(frame) == IF frame = "inertial" THEN {-2, -1, 0, 1, 2} ELSE {-2, 2}
(* a request is accepted iff no needed mode is missing for any tag in use    *)
Accept(frame, modes, tags) == \A t \in tags : Need(frame) \subseteq modes[t]

CONSTANTS Fixed, Emit
VARIABLES prec, frame, rep, tags, rot, g, modes, dict, user, todo, pc, used
vars == <<prec, frame, rep, tags, rot, g, modes, dict, user, todo, pc, used>>
Keys(r) == IF r = "h" THEN {"h"} ELSE IF r = "ap" THEN {"ap"} ELSE {"ap", "w"}
K == 2
Content(t, k) == IF t = "ecc" THEN k ELSE 10 + k
Val(t, k) == <<Content(t, k), IF frame = "inertial" THEN (rot[t][k] + g) % 4 ELSE 0>>
Series(t) == [k \in 1..K |-> Val(t, k)]
(* reading the frame off the data and undoing it *)
Extract(s) == [k \in 1..K |-> <<s[k][1], 0>>]
Init == /\ prec \in BOOLEAN /\ frame \in (IF prec THEN {"inertial", "coprecessing"} ELSE {"coprecessing"})
        /\ rep \in {"h", "ap", "apw"} /\ tags \in {{"ecc"}, Tags}
        /\ rot \in [Tags -> [1..K -> (IF prec THEN {0, 1, 3} ELSE {0})]] /\ g \in Fixed
        /\ \E t0 \in tags : \E drop \in {9, -2, -1, 0, 1} :
              modes = [t \in Tags |-> {-2, -1, 0, 1, 2} \ (IF t = t0 THEN {drop} ELSE {})]
        /\ dict = [t \in tags |-> [key \in Keys(rep) |-> Series(t)]]
        /\ user = dict /\ todo = tags /\ pc = "check" /\ used = [t \in {} |-> <<>>]
        /\ (Emit /\ rot = [t \in Tags |-> [k \in 1..K |-> 0]] /\ g = 0
              => PrintT("@@" \o ToJson([prec |-> prec, frame |-> frame, rep |-> rep, zero |-> "zero" \in tags,
                                        e |-> modes["ecc"], z |-> modes["zero"]])))
Conf == <<prec, frame, rep, tags, rot, g, modes, user>>
Check == /\ pc = "check" /\ UNCHANGED <<Conf, dict, todo, used>>
         /\ pc' = IF prec /\ ~Accept(frame, modes, tags) THEN "error" ELSE "rotate"
(* one tag at a time: complex modes are made if absent, rotated, and every   *)
(* inertial amplitude, phase and frequency is dropped                        *)
Rotate(t) == /\ pc = "rotate" /\ t \in todo /\ todo' = todo \ {t}
             /\ dict' = IF prec /\ frame = "inertial"
                        THEN [dict EXCEPT ![t] = [key \in {"h"} |-> Extract(IF rep = "h" THEN @["h"] ELSE @["ap"])]]
                        ELSE dict
             /\ UNCHANGED <<Conf, pc, used>>
Ready == pc = "rotate" /\ todo = {} /\ pc' = "combine" /\ UNCHANGED <<Conf, dict, todo, used>>
(* frequency: as given if it is still there, otherwise derived *)
Combine == /\ pc = "combine" /\ pc' = "done" /\ UNCHANGED <<Conf, dict, todo>>
           /\ used' = [t \in tags |-> [amp |-> IF "h" \in DOMAIN dict[t] THEN dict[t]["h"] ELSE dict[t]["ap"],
                                       om |-> IF "w" \in DOMAIN dict[t] THEN dict[t]["w"]
                                              ELSE IF "h" \in DOMAIN dict[t] THEN dict[t]["h"] ELSE dict[t]["ap"]]]
Next == Check \/ (\E t \in Tags : Rotate(t)) \/ Ready \/ Combine
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

True(t) == [k \in 1..K |-> <<Content(t, k), 0>>]
FrameFree == pc = "done" => \A t \in tags : used[t].amp = True(t) /\ used[t].om = True(t)
Decision == /\ pc = "error" => prec /\ ~Accept(frame, modes, tags)
            /\ pc = "done" => ~prec \/ Accept(frame, modes, tags)
UserUntouched == user = [t \in tags |-> [key \in Keys(rep) |-> Series(t)]]
Terminates == <>(pc \in {"done", "error"})
=============================================================================
