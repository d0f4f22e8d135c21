------------------------------- MODULE Token -------------------------------
(***************************************************************************)
(* asio::rf_task, the completion token: an asynchronous operation started  *)
(* with it hands out a future, and its handler, whenever and in whatever   *)
(* thread it is invoked, completes that future: with an error, when the    *)
(* signature begins with an error and it is set, or with the values.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  cfg,     \* [host |-> Seq(Nat), n |-> number of operations], fixed
  st,      \* operation -> "new" | "started" | "firing" | "set" (handler has taken effect)
  fired,   \* operation -> the handler's call: 0 none, 1 under way, 2 returned
  by,      \* operation -> process that started it
  kind,    \* operation -> "-" | "ec" | "ex": what the signature begins with
  nv,      \* operation -> number of values of the signature
  arg,     \* operation -> <<error, first value, second value>> the handler was invoked with
  aw       \* operation -> "no" | "waiting" | "done"

vars == <<cfg, st, fired, by, kind, nv, arg, aw>>
Procs == DOMAIN cfg.host
Ops == 1..cfg.n

InitWith(c) ==
  /\ cfg = c
  /\ st = [k \in 1..c.n |-> "new"]
  /\ fired = [k \in 1..c.n |-> 0]
  /\ by = [k \in 1..c.n |-> 0]
  /\ kind = [k \in 1..c.n |-> "-"]
  /\ nv = [k \in 1..c.n |-> 0]
  /\ arg = [k \in 1..c.n |-> <<0, 0, 0>>]
  /\ aw = [k \in 1..c.n |-> "no"]

Start(p, k, ki, n) ==
  /\ st[k] = "new"
  /\ st' = [st EXCEPT ![k] = "started"]
  /\ by' = [by EXCEPT ![k] = p]
  /\ kind' = [kind EXCEPT ![k] = ki]
  /\ nv' = [nv EXCEPT ![k] = n]
  /\ UNCHANGED <<cfg, fired, arg, aw>>

\* the operation is done: its handler is invoked (once)
Handler(k, e, a, b) ==
  /\ st[k] = "started"
  /\ st' = [st EXCEPT ![k] = "firing"]
  /\ fired' = [fired EXCEPT ![k] = 1]
  /\ arg' = [arg EXCEPT ![k] = <<e, a, b>>]
  /\ UNCHANGED <<cfg, by, kind, nv, aw>>
TakesEffect(k) ==
  /\ st[k] = "firing"
  /\ st' = [st EXCEPT ![k] = "set"]
  /\ UNCHANGED <<cfg, fired, by, kind, nv, arg, aw>>
\* the invocation returns, and by then it has taken effect
HandlerEnds(k) ==
  /\ st[k] = "set" /\ fired[k] = 1
  /\ fired' = [fired EXCEPT ![k] = 2]
  /\ UNCHANGED <<cfg, st, by, kind, nv, arg, aw>>

Await(p, k) ==
  /\ by[k] = p /\ aw[k] = "no"
  /\ aw' = [aw EXCEPT ![k] = "waiting"]
  /\ UNCHANGED <<cfg, st, fired, by, kind, nv, arg>>

\* what the await gives: <<error, values>>
Outcome(k) ==
  IF kind[k] # "-" /\ arg[k][1] # 0 THEN <<arg[k][1], 0, 0>>
  ELSE <<0, IF nv[k] > 0 THEN arg[k][2] ELSE 0, IF nv[k] > 1 THEN arg[k][3] ELSE 0>>

\* the coroutine goes on, on scheduler h
Resume(p, k, h, e, a, b) ==
  /\ by[k] = p /\ aw[k] = "waiting" /\ st[k] = "set"
  /\ h = cfg.host[p]
  /\ <<e, a, b>> = Outcome(k)
  /\ aw' = [aw EXCEPT ![k] = "done"]
  /\ UNCHANGED <<cfg, st, fired, by, kind, nv, arg>>

Silent(k) == TakesEffect(k)

\* nothing moves any more: an operation whose handler was invoked is complete, and its awaiter has gone on
Quiescent ==
  \A k \in Ops : /\ fired[k] # 1
                 /\ st[k] # "firing"
                 /\ st[k] = "set" => aw[k] = "done"
Quiesce == Quiescent /\ UNCHANGED vars

(***************************** invariants **********************************)
TypeOK == \A k \in Ops :
  /\ aw[k] # "no" => by[k] \in Procs
  /\ st[k] \in {"new", "started"} <=> fired[k] = 0
  /\ fired[k] = 2 => st[k] = "set"
\* A01: nobody goes on before the handler was invoked
NotBefore == \A k \in Ops : aw[k] = "done" => st[k] = "set"
=============================================================================
