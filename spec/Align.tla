-------------------------------- MODULE Align -------------------------------
(* Quasicircular reference data (P24).  Times are integers (quarter units).  *)
(* The eccentric waveform has analysed times es, es+de, ... (ne samples) and *)
(* merger em; the quasicircular one zs, zs+dz, ... (nz samples) and merger   *)
(* zm.  Data: E(t) of the eccentric, Z(tau) of the quasicircular waveform as *)
(* a function of time to its merger.                                         *)
EXTENDS Integers, Sequences, TLC, Json

Shifted(t, zm, em) == t - zm + em
StartOk(zs, zm, es, em) == Shifted(zs, zm, em) <= es
EndOk(ze, zm, em) == Shifted(ze, zm, em) >= em
(* reference times that are used must not lie beyond the end *)
RefOk(ze, zm, em, refs) == \A i \in 1..Len(refs) : refs[i] <= Shifted(ze, zm, em)
Accept(zs, ze, zm, es, em, refs) == StartOk(zs, zm, es, em) /\ EndOk(ze, zm, em) /\ RefOk(ze, zm, em, refs)
(* c0 + c1 tau + c2 tau^2 *)
Poly(c, tau) == c[1] + c[2] * tau + c[3] * tau * tau
Res(ev, c, t, em) == ev - Poly(c, t - em)

CONSTANTS Origins, Emit
VARIABLES es, em, zs, ze, zm, dz, ref, pc, k, got, res
vars == <<es, em, zs, ze, zm, dz, ref, pc, k, got, res>>
De == 4
Ne == 4            \* es, es + 4, ..., es + 12
C == <<7, 3, 0>>
Eval(t) == 100 + 2 * t
Init == /\ es \in Origins /\ em = es + 13
        /\ \E o \in Origins : zm = o
        /\ \E lead \in {8, 12, 13, 14, 17, 25} : zs = zm - lead
        /\ dz \in {1, 3, 4}
        /\ \E n \in 1..14 : ze = zs + n * dz /\ ze - zm <= 12
        /\ ref \in {es + 2, es + 11, em + 3, em + 6}
        /\ pc = "start" /\ k = 0 /\ got = "none" /\ res = <<>>
        /\ (Emit => PrintT("@@" \o ToJson([lead |-> zm - zs, tail |-> ze - zm, ref |-> ref - em, eo |-> es, zo |-> zm, dz |-> dz])))
Keep == UNCHANGED <<es, em, zs, ze, zm, dz, ref>>
(* interpolation between the two neighbouring shifted samples (exact for     *)
(* data linear in time): value times dz                                      *)
Interp(t) == LET i == (t - Shifted(zs, zm, em)) \div dz
                 t0 == zs + i * dz
                 f == (t - Shifted(zs, zm, em)) % dz
             IN (dz - f) * Poly(C, t0 - zm) + f * Poly(C, t0 + dz - zm)
Start == pc = "start" /\ Keep /\ UNCHANGED <<k, res>>
         /\ IF StartOk(zs, zm, es, em) THEN pc' = "end" /\ got' = got ELSE pc' = "done" /\ got' = "error"
End == pc = "end" /\ Keep /\ UNCHANGED <<k, res>>
       /\ IF EndOk(ze, zm, em) THEN pc' = "sub" /\ got' = got ELSE pc' = "done" /\ got' = "error"
Sub == pc = "sub" /\ Keep /\ UNCHANGED got
       /\ IF k = Ne THEN pc' = "ref" /\ k' = k /\ res' = res
          ELSE LET t == es + k * De IN k' = k + 1 /\ pc' = pc /\ res' = Append(res, dz * Eval(t) - Interp(t))
Ref == pc = "ref" /\ Keep /\ UNCHANGED <<k, res>> /\ pc' = "done"
       /\ got' = IF ref <= Shifted(ze, zm, em) THEN "values" ELSE "error"
Next == Start \/ End \/ Sub \/ Ref
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Decision == pc = "done" => (got = "values") = Accept(zs, ze, zm, es, em, <<ref>>)
Aligned == \A i \in 1..Len(res) : res[i] = dz * Res(Eval(es + (i - 1) * De), C, es + (i - 1) * De, em)
(* every analysed time that is subtracted lies inside the reference data     *)
Inside == pc = "sub" /\ k < Ne => /\ Shifted(zs, zm, em) <= es + k * De
                                  /\ es + k * De <= Shifted(ze, zm, em)
(* moving either time origin changes nothing: decided by the difference      *)
OriginFree == \A a \in {0, 5} : \A b \in {0, 9} :
    Accept(zs, ze, zm, es, em, <<ref>>) = Accept(zs + b, ze + b, zm + b, es + a, em + a, <<ref + a>>)
Terminates == <>(pc = "done")
=============================================================================
