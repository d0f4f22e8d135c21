------------------------------- MODULE MCTask ------------------------------
EXTENDS Task, TLC
CONSTANTS NS, NP, NT, NA, MaxD, MaxNow, Total, Kinds, Ops, Loop, FIN
VARIABLES left
mcvars == <<cfg, now, q, batch, ph, rb, run, got, must, last, resid, tk, aw, tm, pc, rs, left>>

MCInit ==
  /\ InitWith([ns |-> NS, np |-> NP, nt |-> NT, na |-> NA, fin |-> [t \in 1..NT |-> IF t \in FIN THEN 1 ELSE 0]])
  /\ left = Total

Free(a) == aw[a].w = 0 /\ aw[a].ft = 0 /\ aw[a].v = 0 /\ \A t \in Tasks : ~(tk[t].st = "chk" /\ tk[t].k = "a" /\ tk[t].arg = a)
NotUsed(a) == a \notin UNION {TimersOf(s) : s \in Scheds} /\ \A p \in Procs : \A i \in DOMAIN pc[p] : pc[p][i].x # a \/ pc[p][i].o \notin {"set", "ts"}
Unclaimed(a) == aw[a].w = 0 /\ aw[a].ft = 0 /\ (\A t \in Tasks : ~(tk[t].st = "chk" /\ tk[t].k = "a" /\ tk[t].arg = a))
                /\ (\A p \in Procs : \A i \in DOMAIN pc[p] : ~(pc[p][i].o = "go" /\ pc[p][i].z = a))
NewTask(t) == tk[t].st = "no" /\ (\A u \in 1..(t - 1) : tk[u].st # "no")
              /\ \A p \in Procs : \A i \in DOMAIN pc[p] : ~(pc[p][i].o = "go" /\ pc[p][i].x = t)
MCCall(p) ==
  /\ left > 0 /\ left' = left - 1
  /\ \E o \in Ops :
       \/ o = "go" /\ \E t \in Tasks : NewTask(t) /\ \E s \in Scheds : Call(p, "go", t, s, 0)
       \/ o = "gof" /\ \E t \in Tasks : NewTask(t) /\ \E s \in Scheds : \E a \in 1..NA : Unclaimed(a) /\ Call(p, "go", t, s, a)
       \/ o = "set" /\ \E a \in 1..NA : NotUsed(a) /\ \E v \in {1, -1} : Call(p, "set", a, v, 0)
       \/ o = "ts" /\ p \in Scheds /\ \E a \in 1..NA : NotUsed(a) /\ \E d \in {now, now + 1} : Call(p, "ts", a, p, d)
       \/ o \in {"gs", "reg"} /\ p \in Scheds /\ run[p] # 0 /\ pc[p] = <<>> /\ (o = "reg" => ~tk[run[p]].cb) /\ Call(p, o, run[p], 0, 0)
       \/ o = "rs" /\ \E t \in Tasks : tk[t].src /\ Call(p, o, t, 0, 0)
       \/ o = "rs1" /\ p \in Scheds /\ run[p] # 0 /\ pc[p] = <<>> /\ \E y \in {1, 2} : Call(p, "rs", run[p], y, 0)
       \/ o \in {"rsa", "em"} /\ p \in Scheds /\ Call(p, o, p, 0, 0)
MCAwait(t) ==
  /\ left > 0 /\ left' = left - 1
  /\ \E k \in Kinds :
       \/ k = "y" /\ Await(t, tk[t].d, k, 0, 0)
       \/ k = "c" /\ tk[t].d < MaxD /\ Await(t, tk[t].d, k, 0, 0)
       \/ k = "a" /\ \E a \in 1..NA : Unclaimed(a) /\ Await(t, tk[t].d, k, a, 0)
       \/ k = "v" /\ \E s \in Scheds : Await(t, tk[t].d, k, s, 0)
       \/ k = "n" /\ Await(t, tk[t].d, k, 1, 0)
Keep == UNCHANGED left
MCStep ==
  \/ \E p \in Procs : MCCall(p)
  \/ \E t \in Tasks : MCAwait(t)
  \/ \E p \in Procs : (pc[p] # <<>> /\ Ret(p, Top(p).o, Top(p).r) /\ Keep)
  \/ \E p \in Procs : \E t \in Tasks : (CbBegin(p, t) \/ CbEnd(p, t)) /\ Keep
  \/ \E h \in Scheds : ((BatchBegin(h) /\ (q[h] # <<>> \/ Due(h) # {} \/ resid[h])) \/ BatchEnd(h, 1) \/ BatchEnd(h, 0)) /\ Keep
  \/ Loop /\ \E h \in Scheds : ((LoopCall(h) /\ ~Nothing(h)) \/ LoopRet(h)) /\ Keep
  \/ \E t \in Tasks : Resume(t, tk[t].sch, tk[t].d, tk[t].res) /\ Keep
  \/ \E t \in Tasks : (\E v \in {1} \cup (IF tk[t].d > 0 THEN {-1} ELSE {}) : Leave(t, tk[t].d, v)) /\ Keep
  \/ \E t \in Tasks : (Unwound(t, tk[t].d, tk[t].sch) \/ CapBegin(t, tk[t].sch) \/ CapEnd(t, tk[t].sch)) /\ Keep
  \/ (\E p \in Procs : SilentP(p)) /\ Keep
  \/ (\E h \in Scheds : SilentH(h)) /\ Keep
  \/ (\E t \in Tasks : SilentT(t)) /\ Keep
  \/ now < MaxNow /\ Advance(now + 1) /\ Keep
Done == Quiescent /\ UNCHANGED mcvars
MCNext == MCStep \/ Done
MCSpec == MCInit /\ [][MCNext]_mcvars
MCLive == MCSpec /\ WF_mcvars(MCStep)

\* S03: run_until_notask comes back only when nothing is left of what was there when it looked
OutOK == [][\A h \in Scheds : (ph[h] # "out" /\ ph'[h] = "out") => (TasksOf(h) = {} /\ q[h] = <<>> /\ tm[h] = <<>>)]_mcvars
\* S02: first come first served: a queue grows at its end and is emptied as a whole
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Fifo == [][\A s \in Scheds : IsPrefix(q[s], q'[s]) \/ (q'[s] = <<>> /\ batch'[s] = q[s])]_mcvars
BatchFixed == [][\A s \in Scheds : ph[s] = "run" => (batch'[s] = batch[s] \/ (batch[s] # <<>> /\ batch'[s] = Tail(batch[s])))]_mcvars
\* F01: a result is never changed
Once == [][\A a \in 1..NA : aw[a].v # 0 => aw'[a].v = aw[a].v]_mcvars
\* T02: a timer does not fire early
NotEarly == [][\A s \in Scheds : \A i \in DOMAIN tm[s] :
                 (tm[s][i].a \notin {x.a : x \in Range(tm'[s])} /\ ~\E p \in Procs : Called(p, "rsa")) => tm[s][i].dl <= now]_mcvars
\* S06: a stop callback is invoked once at most, and only when stop was requested
CbSound == \A t \in Tasks :
  /\ Cardinality({x \in Procs \X (1..9) : x[2] \in DOMAIN pc[x[1]] /\ pc[x[1]][x[2]].o = "cb" /\ pc[x[1]][x[2]].x = t}) <= 1
  /\ (\E p \in Procs : \E i \in DOMAIN pc[p] : pc[p][i].o = "cb" /\ pc[p][i].x = t) => tk[t].stp
\* S06: a stop request, once made, stays made; exactly one request wins
StpStays == [][\A t \in Tasks : (tk[t].stp => tk'[t].stp) /\
   (\A p \in Procs : (Called(p, "rs") /\ Top(p).x = t /\ Len(pc'[p]) = Len(pc[p]) /\ pc'[p][Len(pc[p])].st = "half") => ~tk[t].stp /\ tk'[t].stp)]_mcvars
\* S06: stop-all reaches every task and every timer there was
RsaAll == [][\A p \in Procs : (Called(p, "rsa") /\ pc'[p] # <<>> /\ Len(pc'[p]) = Len(pc[p]) /\ pc'[p][Len(pc[p])].st = "done")
               => \A t \in TasksOf(p) : tk[t].src => tk[t].stp \/ t \notin rs[p].t]_mcvars
\* S04: a task that runs belongs to the scheduler it runs on, and changes it by via only
ViaOnly == [][\A t \in Tasks : (Alive(t) /\ tk'[t].sch # tk[t].sch) => (tk[t].k = "v" /\ (tk'[t].sch = 0 \/ tk'[t].sch = tk[t].arg))]_mcvars
=============================================================================
