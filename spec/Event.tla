------------------------------- MODULE Event -------------------------------
(***************************************************************************)
(* event_t: an auto-reset event with a count of remembered signals.        *)
(* Operations:                                                             *)
(*   w  wait                      t  wait until a deadline                 *)
(*   W  wait_all over a set of events, T the same with a deadline          *)
(*   s  signal   a  signal_all    x  reset                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  cfg,    \* [init |-> Seq(0..1), host |-> Seq(Nat)], fixed
  now,    \* the clock
  host,   \* process -> host it runs on (a coroutine may move)
  cnt,    \* event -> remembered signals
  wq,     \* event -> pending waits, longest first
  pc,     \* process -> "idle" | "called" | "busy" | "blocked" | "granted"
  op,     \* process -> operation
  es,     \* process -> events of its operation (a sequence)
  need,   \* process -> events that have not supplied their signal yet
  dl,     \* process -> deadline, NoDl without
  res,    \* process -> result of the wait
  busy    \* event -> process draining it (signal_all), 0: none

vars == <<cfg, now, host, cnt, wq, pc, op, es, need, dl, res, busy>>
NoDl == -1000000000

Procs == DOMAIN cfg.host
Events == DOMAIN cfg.init
HostFree(p) == \A q \in Procs : (q # p /\ host[q] = host[p]) => pc[q] \notin {"called", "busy"}

InitWith(c) ==
  /\ cfg = c /\ now = 0 /\ host = c.host
  /\ cnt = [e \in DOMAIN c.init |-> c.init[e]]
  /\ wq = [e \in DOMAIN c.init |-> <<>>]
  /\ busy = [e \in DOMAIN c.init |-> 0]
  /\ pc = [p \in DOMAIN c.host |-> "idle"]
  /\ op = [p \in DOMAIN c.host |-> "-"]
  /\ es = [p \in DOMAIN c.host |-> <<>>]
  /\ need = [p \in DOMAIN c.host |-> {}]
  /\ dl = [p \in DOMAIN c.host |-> NoDl]
  /\ res = [p \in DOMAIN c.host |-> 0]

Without(s, p) == SelectSeq(s, LAMBDA x : x # p)
IsWait(o) == o \in {"w", "t", "W", "T"}

Call(p, o, evs, d) ==
  /\ pc[p] = "idle" /\ HostFree(p)
  /\ o \in {"w", "t", "W", "T", "s", "a", "x"}
  /\ pc' = [pc EXCEPT ![p] = "called"]
  /\ op' = [op EXCEPT ![p] = o]
  /\ es' = [es EXCEPT ![p] = evs]
  /\ dl' = [dl EXCEPT ![p] = IF o \in {"t", "T"} THEN d ELSE NoDl]
  /\ res' = [res EXCEPT ![p] = 0]
  /\ UNCHANGED <<cfg, now, host, cnt, wq, need, busy>>

\* a wait takes what is remembered, one of each event, and waits for the rest
EvSet(p) == {es[p][i] : i \in DOMAIN es[p]}
LinWait(p) ==
  /\ pc[p] = "called" /\ IsWait(op[p])
  /\ \A e \in EvSet(p) : busy[e] = 0
  /\ LET missing == {e \in EvSet(p) : cnt[e] = 0} IN
       /\ cnt' = [e \in Events |-> IF e \in EvSet(p) \ missing THEN cnt[e] - 1 ELSE cnt[e]]
       /\ wq' = [e \in Events |-> IF e \in missing THEN Append(wq[e], p) ELSE wq[e]]
       /\ need' = [need EXCEPT ![p] = missing]
       /\ IF missing = {}
            THEN pc' = [pc EXCEPT ![p] = "granted"] /\ res' = [res EXCEPT ![p] = 1]
            ELSE pc' = [pc EXCEPT ![p] = "blocked"] /\ res' = res
  /\ UNCHANGED <<cfg, now, host, op, es, dl, busy>>

\* event e supplies its signal to the wait of q; me: the signalling process, in state st afterwards
Supply(q, e, me, st) ==
  /\ need' = [need EXCEPT ![q] = @ \ {e}]
  /\ wq' = [wq EXCEPT ![e] = Tail(@)]
  /\ IF need[q] = {e}
       THEN pc' = [pc EXCEPT ![q] = "granted", ![me] = st] /\ res' = [res EXCEPT ![q] = 1]
       ELSE pc' = [pc EXCEPT ![me] = st] /\ res' = res

LinSignalWake(p) ==
  /\ pc[p] = "called" /\ op[p] = "s"
  /\ LET e == es[p][1] IN
       /\ busy[e] = 0 /\ wq[e] # <<>>
       /\ Supply(Head(wq[e]), e, p, "granted")
  /\ UNCHANGED <<cfg, now, host, cnt, op, es, dl, busy>>

LinSignalRemember(p) ==
  /\ pc[p] = "called" /\ op[p] = "s"
  /\ LET e == es[p][1] IN
       /\ busy[e] = 0 /\ wq[e] = <<>>
       /\ cnt' = [cnt EXCEPT ![e] = @ + 1]
  /\ pc' = [pc EXCEPT ![p] = "granted"]
  /\ UNCHANGED <<cfg, now, host, wq, op, es, need, dl, res, busy>>

\* signal_all: drains the waits one by one; nobody else gets at the event meanwhile, but time-outs go on
SigAllBegin(p) ==
  /\ pc[p] = "called" /\ op[p] = "a"
  /\ LET e == es[p][1] IN
       /\ busy[e] = 0
       /\ IF wq[e] = <<>>
            THEN pc' = [pc EXCEPT ![p] = "granted"] /\ busy' = busy
            ELSE pc' = [pc EXCEPT ![p] = "busy"] /\ busy' = [busy EXCEPT ![e] = p]
  /\ UNCHANGED <<cfg, now, host, cnt, wq, op, es, need, dl, res>>
SigAllStep(p) ==
  /\ pc[p] = "busy"
  /\ LET e == es[p][1] IN
       /\ wq[e] # <<>>
       /\ Supply(Head(wq[e]), e, p, "busy")
  /\ UNCHANGED <<cfg, now, host, cnt, op, es, dl, busy>>
SigAllEnd(p) ==
  /\ pc[p] = "busy"
  /\ LET e == es[p][1] IN
       /\ wq[e] = <<>>
       /\ busy' = [busy EXCEPT ![e] = 0]
  /\ pc' = [pc EXCEPT ![p] = "granted"]
  /\ UNCHANGED <<cfg, now, host, cnt, wq, op, es, need, dl, res>>

LinReset(p) ==
  /\ pc[p] = "called" /\ op[p] = "x"
  /\ LET e == es[p][1] IN busy[e] = 0 /\ cnt' = [cnt EXCEPT ![e] = 0]
  /\ pc' = [pc EXCEPT ![p] = "granted"]
  /\ UNCHANGED <<cfg, now, host, wq, op, es, need, dl, res, busy>>

\* the deadline of a pending wait has come: it gives up, at once at every event
TimeOut(p) ==
  /\ pc[p] = "blocked" /\ dl[p] # NoDl /\ dl[p] <= now
  /\ wq' = [e \in Events |-> Without(wq[e], p)]
  /\ need' = [need EXCEPT ![p] = {}]
  /\ res' = [res EXCEPT ![p] = 0]
  /\ pc' = [pc EXCEPT ![p] = "granted"]
  /\ UNCHANGED <<cfg, now, host, cnt, op, es, dl, busy>>

Silent(p) ==
  \/ LinWait(p) \/ LinSignalWake(p) \/ LinSignalRemember(p) \/ LinReset(p)
  \/ SigAllBegin(p) \/ SigAllStep(p) \/ SigAllEnd(p) \/ TimeOut(p)

Ret(p, o, r) ==
  /\ pc[p] = "granted" /\ op[p] = o /\ HostFree(p)
  /\ IsWait(o) => res[p] = r
  /\ pc' = [pc EXCEPT ![p] = "idle"]
  /\ op' = [op EXCEPT ![p] = "-"]
  /\ es' = [es EXCEPT ![p] = <<>>]
  /\ dl' = [dl EXCEPT ![p] = NoDl]
  /\ res' = [res EXCEPT ![p] = 0]
  /\ UNCHANGED <<cfg, now, host, cnt, wq, need, busy>>

Advance(x) == x > now /\ now' = x /\ UNCHANGED <<cfg, host, cnt, wq, pc, op, es, need, dl, res, busy>>

\* a coroutine between two operations moves to another scheduler
Move(p, h) ==
  /\ pc[p] = "idle"
  /\ host' = [host EXCEPT ![p] = h]
  /\ UNCHANGED <<cfg, now, cnt, wq, pc, op, es, need, dl, res, busy>>

Quiescent ==
  \A p \in Procs : \/ pc[p] = "idle"
                   \/ pc[p] = "blocked" /\ (dl[p] = NoDl \/ dl[p] > now)
Quiesce == Quiescent /\ UNCHANGED vars

(***************************** invariants **********************************)
Range(s) == {s[i] : i \in DOMAIN s}
TypeOK ==
  /\ \A e \in Events : cnt[e] >= 0
  /\ \A e \in Events : \A p \in Range(wq[e]) : pc[p] = "blocked" /\ e \in need[p]
  /\ \A p \in Procs : pc[p] = "blocked" <=> need[p] # {}
  /\ \A p \in Procs : \A e \in need[p] : p \in Range(wq[e])
\* E01: nobody waits for an event with a remembered signal
NoStranding == \A e \in Events : wq[e] # <<>> => cnt[e] = 0
=============================================================================
