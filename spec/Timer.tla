-------------------------------- MODULE Timer -------------------------------
(***************************************************************************)
(* Timer managers.  Thread 1 drives them (update); timers are added,        *)
(* stopped and cleared by every thread and by the callbacks themselves.    *)
(* Every timer gets exactly one callback: with FALSE at its time, or with  *)
(* TRUE when it has been stopped or cleared.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  cfg,     \* [np |-> threads, nt |-> timers, mgr |-> timer -> its manager]
  now,
  tm,      \* timer -> [st: "no" | "wait" | "stop" | "done", dl, own: the clear() that took it]
  ord,     \* timers in the order they were added
  pc,      \* thread -> stack of operations and callbacks in progress
  must,    \* timers the running update has to call
  last     \* deadline of the timer called last by it

vars == <<cfg, now, tm, ord, pc, must, last>>
NoTime == -1000000000
Procs == 1..cfg.np
Tms == 1..cfg.nt

InitWith(c) ==
  /\ cfg = c /\ now = 0
  /\ tm = [i \in 1..c.nt |-> [st |-> "no", dl |-> 0, own |-> <<>>]]
  /\ ord = <<>>
  /\ pc = [p \in 1..c.np |-> <<>>]
  /\ must = {} /\ last = NoTime

Range(s) == {s[i] : i \in DOMAIN s}
Front(s) == SubSeq(s, 1, Len(s) - 1)
Pending == {i \in Tms : tm[i].st \in {"wait", "stop"}}
Free == {i \in Pending : tm[i].own = <<>>}
Of(m) == {i \in Tms : cfg.mgr[i] = m}
Due == {i \in Free : tm[i].dl <= now}
Pos(i) == CHOOSE k \in DOMAIN ord : ord[k] = i
Before(i, j) == tm[i].dl < tm[j].dl \/ (tm[i].dl = tm[j].dl /\ Pos(i) < Pos(j))

Nop == [o |-> "-", x |-> 0, y |-> 0, st |-> "-", r |-> 0]
Top(p) == IF pc[p] = <<>> THEN Nop ELSE pc[p][Len(pc[p])]
SetTop(p, st, r) == [pc EXCEPT ![p][Len(pc[p])].st = st, ![p][Len(pc[p])].r = r]
UserCode(p) == pc[p] = <<>> \/ (Top(p).o = "cb" /\ Top(p).st = "in")
\* update() may already have taken timer i out
Held(i) == \/ (tm[i].st = "stop" /\ \E k \in DOMAIN pc[1] : pc[1][k].o = "upd" /\ pc[1][k].x = cfg.mgr[i])
           \/ (tm[i].dl <= now /\ Top(1).o = "upd" /\ Top(1).x = cfg.mgr[i] /\ Top(1).st = "called")
Within(os, m) == \E p \in Procs : \E k \in DOMAIN pc[p] : /\ pc[p][k].o \in os
                                                          /\ m = (IF pc[p][k].o = "stop" THEN cfg.mgr[pc[p][k].x] ELSE pc[p][k].x)

Call(p, o, x, y) ==
  /\ UserCode(p)
  /\ o \in {"add", "stop", "exp", "emp", "clr", "upd"}
  /\ o = "add" => tm[x].st = "no"
  /\ o = "upd" => p = 1 /\ pc[p] = <<>>
  /\ pc' = [pc EXCEPT ![p] = Append(@, [o |-> o, x |-> x, y |-> y, st |-> "called", r |-> 0])]
  /\ must' = IF o = "upd" THEN Due \cap Of(x) ELSE must
  /\ last' = IF o = "upd" THEN NoTime ELSE last
  /\ UNCHANGED <<cfg, now, tm, ord>>

Called(p, o) == pc[p] # <<>> /\ Top(p).o = o /\ Top(p).st = "called"
LinAdd(p) ==
  /\ Called(p, "add")
  /\ tm' = [tm EXCEPT ![Top(p).x] = [st |-> "wait", dl |-> Top(p).y, own |-> <<>>]]
  /\ ord' = Append(ord, Top(p).x)
  /\ pc' = SetTop(p, "done", 0)
  /\ UNCHANGED <<cfg, now, must, last>>
\* TRUE: the callback is going to be told
LinStop(p) ==
  /\ Called(p, "stop")
  /\ LET w == tm[Top(p).x].st = "wait" IN
       /\ tm' = IF w THEN [tm EXCEPT ![Top(p).x].st = "stop"] ELSE tm
       /\ pc' = SetTop(p, "done", IF w THEN 1 ELSE 0)
  /\ UNCHANGED <<cfg, now, ord, must, last>>
LinExp(p) ==
  /\ Called(p, "exp")
  /\ \E r \in {0, 1} : /\ r = 1 => tm[Top(p).x].st = "done"
                       \* somebody in the manager may still hold the timer
                       /\ r = 0 => (tm[Top(p).x].st # "done" \/ Within({"upd", "clr", "stop"}, cfg.mgr[Top(p).x]))
                       /\ pc' = SetTop(p, "done", r)
  /\ UNCHANGED <<cfg, now, tm, ord, must, last>>
LinEmp(p) ==
  /\ Called(p, "emp")
  /\ \E r \in {0, 1} : /\ r = 1 => \A i \in Free \cap Of(Top(p).x) : Held(i)
                       /\ r = 0 => (Pending \cap Of(Top(p).x) # {} \/ Within({"upd", "clr"}, Top(p).x))
                       /\ pc' = SetTop(p, "done", r)
  /\ UNCHANGED <<cfg, now, tm, ord, must, last>>

CbFrame(i, r) == [o |-> "cb", x |-> i, y |-> 0, st |-> "due", r |-> r]
\* update calls timer i
Take(p) ==
  /\ Called(p, "upd")
  /\ \E i \in Free \cap Of(Top(p).x) :
       \/ /\ tm[i].st = "wait" /\ tm[i].dl <= now /\ tm[i].dl >= last
          /\ \A j \in must \cap Free : (j # i /\ tm[j].st = "wait") => Before(i, j)
          /\ last' = tm[i].dl
          /\ tm' = [tm EXCEPT ![i].st = "done"]
          /\ must' = must \ {i}
          /\ pc' = [pc EXCEPT ![p] = Append(@, CbFrame(i, 0))]
       \/ /\ tm[i].st = "stop"
          /\ tm' = [tm EXCEPT ![i].st = "done"]
          /\ must' = must \ {i}
          /\ last' = last
          /\ pc' = [pc EXCEPT ![p] = Append(@, CbFrame(i, 1))]
  /\ UNCHANGED <<cfg, now, ord>>
UpdDone(p) ==
  /\ Called(p, "upd") /\ must \cap Free = {}
  /\ pc' = SetTop(p, "done", 0)
  /\ UNCHANGED <<cfg, now, tm, ord, must, last>>
\* clear takes all timers of its manager, and calls them one after the other
Grab(p) ==
  /\ Called(p, "clr")
  /\ pc' = SetTop(p, "took", 0)
  /\ \E keep \in SUBSET {i \in Free \cap Of(Top(p).x) : Held(i)} :
       tm' = [i \in Tms |-> IF i \in (Free \cap Of(Top(p).x)) \ keep THEN [tm[i] EXCEPT !.own = <<p, Len(pc[p])>>] ELSE tm[i]]
  /\ UNCHANGED <<cfg, now, ord, must, last>>
Took(p) == pc[p] # <<>> /\ Top(p).o = "clr" /\ Top(p).st = "took"
Mine(p) == {i \in Pending : tm[i].own = <<p, Len(pc[p])>>}
Cancel(p) ==
  /\ Took(p)
  /\ \E i \in Mine(p) :
       /\ tm' = [tm EXCEPT ![i].st = "done"]
       /\ must' = must \ {i}
       /\ pc' = [pc EXCEPT ![p] = Append(@, CbFrame(i, 1))]
  /\ UNCHANGED <<cfg, now, ord, last>>
ClrDone(p) ==
  /\ Took(p) /\ Mine(p) = {}
  /\ pc' = SetTop(p, "done", 0)
  /\ UNCHANGED <<cfg, now, tm, ord, must, last>>

CbBegin(p, i, r) ==
  /\ pc[p] # <<>> /\ Top(p).o = "cb" /\ Top(p).x = i /\ Top(p).st = "due" /\ Top(p).r = r
  /\ pc' = SetTop(p, "in", r)
  /\ UNCHANGED <<cfg, now, tm, ord, must, last>>
CbEnd(p, i) ==
  /\ pc[p] # <<>> /\ Top(p).o = "cb" /\ Top(p).x = i /\ Top(p).st = "in"
  /\ pc' = [pc EXCEPT ![p] = Front(@)]
  /\ UNCHANGED <<cfg, now, tm, ord, must, last>>
Ret(p, o, r) ==
  /\ pc[p] # <<>> /\ Top(p).o = o /\ Top(p).st = "done"
  /\ o \in {"stop", "exp", "emp"} => Top(p).r = r
  /\ pc' = [pc EXCEPT ![p] = Front(@)]
  /\ UNCHANGED <<cfg, now, tm, ord, must, last>>

Advance(x) == x > now /\ now' = x /\ UNCHANGED <<cfg, tm, ord, pc, must, last>>
Idle == \A p \in Procs : pc[p] = <<>>
Quiesce == Idle /\ Due = {} /\ UNCHANGED vars
\* the end: every timer that was added has had its callback
AllDone == Idle /\ Pending = {} /\ UNCHANGED vars

SilentP(p) == LinAdd(p) \/ LinStop(p) \/ LinExp(p) \/ LinEmp(p) \/ Take(p) \/ UpdDone(p) \/ Grab(p) \/ Cancel(p) \/ ClrDone(p)
=============================================================================
