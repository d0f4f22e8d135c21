-------------------------------- MODULE Bind -------------------------------
(***************************************************************************)
(* Which scheduler a thread's work goes to.  A thread is bound to at most  *)
(* one scheduler: the first one made in it, or given to it, while it is    *)
(* bound to none.  Unbound, it uses the global scheduler 0.  A scheduler   *)
(* that goes away unbinds the thread in which it goes, when that thread is *)
(* bound to it.  A local_scheduler_t without argument makes a scheduler,   *)
(* which goes with it, only in an unbound thread; one with an argument     *)
(* makes none and its end changes nothing.                                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

VARIABLES
  cfg,    \* [np |-> threads]
  bound,  \* thread -> scheduler, 0: none
  alive,  \* schedulers that exist, without 0
  loc,    \* local_scheduler_t -> the scheduler it has made, 0: none
  task    \* started task that has not run -> its scheduler
vars == <<cfg, bound, alive, loc, task>>
Threads == 1..cfg.np
Sched(p) == bound[p]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
None == [x \in {} |-> 0]

InitWith(c) == /\ cfg = c /\ alive = {} /\ loc = None /\ task = None
               /\ bound = [p \in 1..c.np |-> 0]

Bind(p, s) == IF bound[p] = 0 THEN [bound EXCEPT ![p] = s] ELSE bound
Unbind(p, s) == IF bound[p] = s THEN [bound EXCEPT ![p] = 0] ELSE bound
Owned == {loc[x] : x \in DOMAIN loc}
Idle(s) == \A k \in DOMAIN task : task[k] # s

\* a scheduler is made, or goes
New(p, s) == /\ s > 0 /\ s \notin alive /\ alive' = alive \cup {s} /\ bound' = Bind(p, s)
             /\ UNCHANGED <<cfg, loc, task>>
Del(p, s) == /\ s \in alive /\ s \notin Owned /\ Idle(s)
             /\ alive' = alive \ {s} /\ bound' = Unbind(p, s)
             /\ UNCHANGED <<cfg, loc, task>>
\* local_scheduler_t x; the thread's scheduler is then s
Loc(p, x, s) ==
  /\ x \notin DOMAIN loc
  /\ IF bound[p] = 0 THEN /\ s > 0 /\ s \notin alive /\ alive' = alive \cup {s}
                          /\ bound' = [bound EXCEPT ![p] = s] /\ loc' = Put(loc, x, s)
                     ELSE /\ s = bound[p] /\ loc' = Put(loc, x, 0) /\ UNCHANGED <<alive, bound>>
  /\ UNCHANGED <<cfg, task>>
\* local_scheduler_t x(s)
LocFor(p, x, s) == /\ x \notin DOMAIN loc /\ s \in alive
                   /\ loc' = Put(loc, x, 0) /\ bound' = Bind(p, s)
                   /\ UNCHANGED <<cfg, alive, task>>
Unloc(p, x) == /\ x \in DOMAIN loc /\ (loc[x] # 0 => Idle(loc[x])) = TRUE
               /\ loc' = Drop(loc, x)
               /\ IF loc[x] = 0 THEN UNCHANGED <<alive, bound>>
                  ELSE alive' = alive \ {loc[x]} /\ bound' = Unbind(p, loc[x])
               /\ UNCHANGED <<cfg, task>>
\* this_scheduler()
Query(p, s) == s = Sched(p) /\ UNCHANGED vars
\* go: the task belongs to the thread's scheduler
Go(p, k) == /\ k \notin DOMAIN task /\ task' = Put(task, k, Sched(p))
            /\ UNCHANGED <<cfg, bound, alive, loc>>
\* s + coroutine
GoOn(p, k, s) == /\ k \notin DOMAIN task /\ s \in alive \cup {0} /\ task' = Put(task, k, s)
                 /\ UNCHANGED <<cfg, bound, alive, loc>>
\* it runs in thread p, which runs a batch; it finds s, its thread's scheduler is q
Run(p, k, s, q) == /\ k \in DOMAIN task /\ task[k] = s /\ q = Sched(p) /\ task' = Drop(task, k)
                   /\ UNCHANGED <<cfg, bound, alive, loc>>
\* a scheduler has been run until it has no task
Ran(p, s) == Idle(s) /\ UNCHANGED vars
=============================================================================
