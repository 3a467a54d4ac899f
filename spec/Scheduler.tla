------------------------------ MODULE Scheduler -----------------------------
(* Design of the parallel postprocessing run: master and workers exchanging  *)
(* batches over channels, periodic checkpoints written to a temporary file   *)
(* and renamed, crashes of the whole job at any point, reruns that resume    *)
(* from the checkpoint.  The guarantees are those of Postproc.               *)
EXTENDS Postproc, TLC, Json

CONSTANTS Procs,      \* sizes of the job, one is chosen per run
          Batches, Intervals, Lens, Crashes, Rendezvous, Emit,
          Aborts      \* a master that fails stops the other processes

VARIABLES P, B, E, req,                       \* configuration of this run
          pc, nxt, todo, cur, since, got, prime, ret,      \* master
          wst, wjob, chan, inb,                       \* workers and channels
          ckpt, tmp, out, otmp,                       \* files
          evals, before, crashes, sched               \* history

vars == <<P, B, E, req, pc, nxt, todo, cur, since, got, prime, ret, wst, wjob, chan, inb, ckpt, tmp, out, otmp,
          evals, before, crashes, sched>>
cfg == <<P, B, E, req>>
Partial == {-2}
MaxP == CHOOSE x \in Procs : \A y \in Procs : y <= x
W == 1..(MaxP - 1)
Minus(s, S) == SelectSeq(s, LAMBDA x : x \notin S)
None == <<-1>>
Requests == {[i \in 1..n |-> i] : n \in Lens} \cup {<<2, 1, 2>> : n \in Lens \cap {2}}
            \cup {<<1, Unknown>> : n \in Lens \cap {2}}

(* marks the start of a run in an emitted schedule *)
Code(p, b, e) == 1000 + 100 * p + 10 * b + e
Fresh(b) == /\ pc = "load" /\ nxt = 0 /\ todo = <<>> /\ cur = <<>> /\ since = 0 /\ got = {} /\ prime = 1 /\ ret = ""
            /\ wst = [w \in W |-> "recv"] /\ wjob = [w \in W |-> <<>>]
            /\ chan = [w \in W |-> <<>>] /\ inb = [w \in W |-> <<>>]
            /\ evals = <<>> /\ before = b
Init == /\ P \in Procs /\ B \in Batches /\ E \in Intervals /\ req \in Requests
        /\ Fresh({}) /\ ckpt = {} /\ tmp = {} /\ out = None /\ otmp = None /\ crashes = 0
        /\ sched = IF Emit THEN <<Code(P, B, E)>> ELSE <<>>

Note(x) == sched' = IF Emit THEN Append(sched, x) ELSE sched
Files == <<ckpt, tmp, out, otmp>>
Net == <<wst, wjob, chan, inb>>
Hist == <<before, crashes>>

Load == /\ pc = "load" /\ ~Bad(req) /\ Note(0)
        /\ todo' = Minus(Sel(req), ckpt) /\ got' = ckpt \cap Range(req)
        /\ pc' = IF Minus(Sel(req), ckpt) = <<>> THEN (IF P > 1 THEN "stop" ELSE "final")
                 ELSE IF P = 1 THEN "single" ELSE "prime"
        /\ UNCHANGED <<cfg, nxt, cur, since, prime, ret, Net, Files, evals, Hist>>

(* a selection that names samples the posterior does not have is an error    *)
Fail == /\ pc = "load" /\ Bad(req) /\ Note(0) /\ pc' = "failed"
        /\ wst' = IF Aborts THEN [w \in W |-> "done"] ELSE wst
        /\ UNCHANGED <<cfg, nxt, todo, cur, since, got, prime, ret, wjob, chan, inb, Files, evals, Hist>>

(* -- one process ------------------------------------------------------- *)
Single == /\ pc = "single" /\ Note(0)
          /\ IF nxt = Len(todo)
             THEN /\ pc' = IF E > 0 /\ since > 0 THEN "save" ELSE "final"
                  /\ ret' = "final" /\ UNCHANGED <<nxt, since, got, evals>>
             ELSE /\ nxt' = nxt + 1 /\ evals' = Append(evals, todo[nxt + 1])
                  /\ got' = got \cup {todo[nxt + 1]} /\ since' = since + 1 /\ ret' = "single"
                  /\ pc' = IF E > 0 /\ since + 1 >= E THEN "save" ELSE "single"
          /\ UNCHANGED <<cfg, todo, cur, prime, Net, Files, Hist>>

(* -- files: a write can be cut; a rename is atomic ------------------------ *)
SaveTmp == pc = "save" /\ pc' = "save2" /\ tmp' = Partial /\ Note(0)
           /\ UNCHANGED <<cfg, nxt, todo, cur, since, got, prime, ret, Net, ckpt, out, otmp, evals, Hist>>
SaveTmp2 == pc = "save2" /\ pc' = "mv" /\ tmp' = got /\ Note(0)
            /\ UNCHANGED <<cfg, nxt, todo, cur, since, got, prime, ret, Net, ckpt, out, otmp, evals, Hist>>
SaveMv == pc = "mv" /\ pc' = ret /\ ckpt' = tmp /\ tmp' = {} /\ since' = 0 /\ Note(0)
          /\ UNCHANGED <<cfg, nxt, todo, cur, got, prime, ret, Net, out, otmp, evals, Hist>>
Final == pc = "final" /\ pc' = "final2" /\ otmp' = <<-2>> /\ Note(0)
         /\ UNCHANGED <<cfg, nxt, todo, cur, since, got, prime, ret, Net, ckpt, tmp, out, evals, Hist>>
Final2 == pc = "final2" /\ pc' = "fmv" /\ otmp' = SelectSeq(Sel(req), LAMBDA x : x \in got) /\ Note(0)
          /\ UNCHANGED <<cfg, nxt, todo, cur, since, got, prime, ret, Net, ckpt, tmp, out, evals, Hist>>
FinalMv == pc = "fmv" /\ pc' = "done" /\ out' = otmp /\ otmp' = None /\ Note(0)
           /\ UNCHANGED <<cfg, nxt, todo, cur, since, got, prime, ret, Net, ckpt, tmp, evals, Hist>>

(* -- master of several processes --------------------------------------- *)
STOP == <<-9>>
Job == SubSeq(todo, nxt + 1, Min({nxt + B, Len(todo)}))
CanSend(w) == ~Rendezvous \/ (wst[w] = "recv" /\ chan[w] = <<>>)
SendTo(w) == /\ CanSend(w)
             /\ IF nxt < Len(todo) THEN chan' = [chan EXCEPT ![w] = Append(@, Job)] /\ nxt' = nxt + Len(Job)
                ELSE chan' = [chan EXCEPT ![w] = Append(@, STOP)] /\ nxt' = nxt
StopAll == /\ pc = "stop" /\ Note(0)
           /\ IF prime < P THEN CanSend(prime) /\ chan' = [chan EXCEPT ![prime] = Append(@, STOP)] /\ prime' = prime + 1 /\ pc' = pc
              ELSE pc' = "final" /\ UNCHANGED <<chan, prime>>
           /\ UNCHANGED <<cfg, nxt, todo, cur, since, got, ret, wst, wjob, inb, Files, evals, Hist>>
Prime == /\ pc = "prime" /\ Note(0)
         /\ IF prime < P THEN SendTo(prime) /\ prime' = prime + 1 /\ pc' = pc
            ELSE pc' = "loop" /\ UNCHANGED <<chan, prime, nxt>>
         /\ UNCHANGED <<cfg, todo, cur, since, got, ret, wst, wjob, inb, Files, evals, Hist>>
Recv(w) == /\ pc = "loop" /\ inb[w] # <<>> /\ Note(-w)
           /\ cur' = <<w, Head(inb[w])>> /\ inb' = [inb EXCEPT ![w] = Tail(@)] /\ pc' = "batch"
           /\ UNCHANGED <<cfg, nxt, todo, since, got, prime, ret, wst, wjob, chan, Files, evals, Hist>>
Batch == /\ pc = "batch" /\ Note(0)
         /\ IF cur[2] = <<>> THEN pc' = "refill" /\ UNCHANGED <<cur, since, got, ret>>
            ELSE /\ got' = got \cup {Head(cur[2])} /\ cur' = <<cur[1], Tail(cur[2])>> /\ since' = since + 1
                 /\ ret' = "batch" /\ pc' = IF E > 0 /\ since + 1 >= E THEN "save" ELSE pc
         /\ UNCHANGED <<cfg, nxt, todo, prime, Net, Files, evals, Hist>>
Refill == /\ pc = "refill" /\ Note(0) /\ SendTo(cur[1])
          /\ cur' = <<>> /\ ret' = "final"
          /\ pc' = IF Cardinality(got) < Len(Sel(req)) THEN "loop" ELSE IF E > 0 /\ since > 0 THEN "save" ELSE "final"
          /\ UNCHANGED <<cfg, todo, since, got, prime, wst, wjob, inb, Files, evals, Hist>>

(* -- workers -------------------------------------------------------------- *)
WRecv(w) == /\ w < P /\ pc # "dead" /\ wst[w] = "recv" /\ chan[w] # <<>> /\ Note(w)
            /\ chan' = [chan EXCEPT ![w] = Tail(@)]
            /\ IF Head(chan[w]) = STOP THEN wst' = [wst EXCEPT ![w] = "done"] /\ wjob' = wjob
               ELSE wst' = [wst EXCEPT ![w] = "work"] /\ wjob' = [wjob EXCEPT ![w] = <<Head(chan[w]), 0>>]
            /\ UNCHANGED <<cfg, pc, nxt, todo, cur, since, got, prime, ret, inb, Files, evals, Hist>>
WWork(w) == /\ pc # "dead" /\ wst[w] = "work" /\ Note(w)
            /\ IF wjob[w][2] < Len(wjob[w][1])
               THEN /\ evals' = Append(evals, wjob[w][1][wjob[w][2] + 1]) /\ wjob' = [wjob EXCEPT ![w][2] = @ + 1]
                    /\ UNCHANGED <<wst, inb>>
               ELSE /\ (Rendezvous => pc = "loop")
                    /\ inb' = [inb EXCEPT ![w] = Append(@, wjob[w][1])] /\ wst' = [wst EXCEPT ![w] = "recv"]
                    /\ UNCHANGED <<evals, wjob>>
            /\ UNCHANGED <<cfg, pc, nxt, todo, cur, since, got, prime, ret, chan, Files, Hist>>

(* -- the job dies; the rerun may use other numbers of processes ------------ *)
Crash == /\ pc \notin {"dead", "failed"} /\ crashes < Crashes /\ crashes' = crashes + 1 /\ pc' = "dead" /\ Note(100)
         /\ UNCHANGED <<cfg, nxt, todo, cur, since, got, prime, ret, Net, Files, evals, before>>
Rerun == /\ pc = "dead" /\ P' \in Procs /\ B' \in Batches /\ E' \in Intervals /\ req' = req
         /\ pc' = "load" /\ nxt' = 0 /\ todo' = <<>> /\ cur' = <<>> /\ since' = 0 /\ got' = {} /\ prime' = 1 /\ ret' = ""
         /\ wst' = [w \in W |-> "recv"] /\ wjob' = [w \in W |-> <<>>]
         /\ chan' = [w \in W |-> <<>>] /\ inb' = [w \in W |-> <<>>]
         /\ evals' = <<>> /\ before' = ckpt
         /\ sched' = (IF Emit THEN Append(sched, Code(P', B', E')) ELSE sched) /\ UNCHANGED <<Files, crashes>>
Stopped == pc \in {"done", "failed"} /\ \A w \in W : w < P => wst[w] = "done"
End == /\ Stopped /\ Emit /\ sched # <<>> /\ PrintT("@@" \o ToJson([req |-> req, sched |-> sched]))
       /\ sched' = <<>> /\ UNCHANGED <<P, B, E, req, pc, nxt, todo, cur, since, got, prime, ret, Net, Files, evals, Hist>>
Idle == Stopped /\ sched = <<>> /\ UNCHANGED vars

Master == Load \/ Fail \/ Single \/ SaveTmp \/ SaveTmp2 \/ SaveMv \/ Final \/ Final2 \/ FinalMv \/ StopAll \/ Prime \/ Batch \/ Refill
          \/ \E w \in W : Recv(w)
Worker(w) == WRecv(w) \/ WWork(w)
Next == Master \/ (\E w \in W : Worker(w)) \/ Crash \/ Rerun \/ End \/ Idle
Spec == Init /\ [][Next]_vars /\ WF_vars(Master) /\ WF_vars(Rerun) /\ \A w \in W : WF_vars(Worker(w))

InvOnce == Once(evals) /\ OnlySelected(evals, req) /\ NotAgain(evals, before)
InvDurable == Durable(before, ckpt) /\ Honest(evals, before, ckpt) /\ -2 \notin ckpt
InvRecent == Recent(evals, ckpt, E, P, B)
InvOut == out \in {None, Sel(req)}
InvBad == Bad(req) => evals = <<>> /\ out = None /\ pc # "done"
InvDone == pc = "done" => RowsRight(out, req) /\ AllDone(evals, before, req)
Terminates == <>Stopped
(* the file of results and the checkpoint never lose rows *)
NeverLoses == [][ckpt \subseteq ckpt' /\ (out # None => out' = out)]_<<ckpt, out>>
=============================================================================
