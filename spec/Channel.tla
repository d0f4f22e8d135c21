------------------------------ MODULE Channel ------------------------------
(***************************************************************************)
(* channel_t<T>: a bounded first-in first-out queue between coroutines     *)
(* (and plain threads that write).  capacity 0: rendezvous.                *)
(*                                                                         *)
(* An operation is called, takes effect atomically at some moment between  *)
(* its call and its return (Lin), possibly only registering itself as a    *)
(* waiter, and returns once its effect is complete ("granted").            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  cfg,      \* [cap |-> Nat, host |-> Seq(Nat), coro |-> Seq(0..1)], fixed
  host,     \* process -> host it runs on (a coroutine may move)
  buf,      \* values accepted and not delivered
  rq,       \* waiting readers, longest first
  wq,       \* waiting writers, longest first
  pc,       \* process -> "idle" | "called" | "blocked" | "granted"
  op,       \* process -> "r" | "w" | "-"
  val       \* process -> value it writes / value it was given

vars == <<cfg, host, buf, rq, wq, pc, op, val>>

Procs == DOMAIN cfg.host

(* A host runs one coroutine at a time: when another coroutine of the same *)
(* host acts, the operation called before has already taken effect (it was *)
(* the effect that made its coroutine give way).                           *)
HostFree(p) == \A q \in Procs : (q # p /\ host[q] = host[p]) => pc[q] # "called"

InitWith(c) ==
  /\ cfg = c /\ host = c.host
  /\ buf = <<>> /\ rq = <<>> /\ wq = <<>>
  /\ pc = [p \in DOMAIN c.host |-> "idle"]
  /\ op = [p \in DOMAIN c.host |-> "-"]
  /\ val = [p \in DOMAIN c.host |-> 0]

CallRead(p) ==
  /\ pc[p] = "idle" /\ HostFree(p)
  /\ pc' = [pc EXCEPT ![p] = "called"]
  /\ op' = [op EXCEPT ![p] = "r"]
  /\ UNCHANGED <<cfg, host, buf, rq, wq, val>>

CallWrite(p, v) ==
  /\ pc[p] = "idle" /\ HostFree(p)
  /\ pc' = [pc EXCEPT ![p] = "called"]
  /\ op' = [op EXCEPT ![p] = "w"]
  /\ val' = [val EXCEPT ![p] = v]
  /\ UNCHANGED <<cfg, host, buf, rq, wq>>

\* the read takes the oldest accepted value; the room goes to the longest waiting writer
LinReadBuf(p) ==
  /\ pc[p] = "called" /\ op[p] = "r" /\ buf # <<>>
  /\ IF wq # <<>>
       THEN /\ buf' = Append(Tail(buf), val[Head(wq)])
            /\ wq' = Tail(wq)
            /\ pc' = [pc EXCEPT ![p] = "granted", ![Head(wq)] = "granted"]
       ELSE /\ buf' = Tail(buf)
            /\ wq' = wq
            /\ pc' = [pc EXCEPT ![p] = "granted"]
  /\ val' = [val EXCEPT ![p] = Head(buf)]
  /\ UNCHANGED <<cfg, host, rq, op>>

\* rendezvous: the read takes the value from the longest waiting writer
LinReadDirect(p) ==
  /\ pc[p] = "called" /\ op[p] = "r" /\ buf = <<>> /\ wq # <<>>
  /\ wq' = Tail(wq)
  /\ pc' = [pc EXCEPT ![p] = "granted", ![Head(wq)] = "granted"]
  /\ val' = [val EXCEPT ![p] = val[Head(wq)]]
  /\ UNCHANGED <<cfg, host, buf, rq, op>>

LinReadWait(p) ==
  /\ pc[p] = "called" /\ op[p] = "r" /\ buf = <<>> /\ wq = <<>>
  /\ rq' = Append(rq, p)
  /\ pc' = [pc EXCEPT ![p] = "blocked"]
  /\ UNCHANGED <<cfg, host, buf, wq, op, val>>

LinWriteDirect(p) ==
  /\ pc[p] = "called" /\ op[p] = "w" /\ rq # <<>>
  /\ rq' = Tail(rq)
  /\ pc' = [pc EXCEPT ![p] = "granted", ![Head(rq)] = "granted"]
  /\ val' = [val EXCEPT ![Head(rq)] = val[p]]
  /\ UNCHANGED <<cfg, host, buf, wq, op>>

LinWriteBuf(p) ==
  /\ pc[p] = "called" /\ op[p] = "w" /\ rq = <<>> /\ Len(buf) < cfg.cap
  /\ buf' = Append(buf, val[p])
  /\ pc' = [pc EXCEPT ![p] = "granted"]
  /\ UNCHANGED <<cfg, host, rq, wq, op, val>>

LinWriteWait(p) ==
  /\ pc[p] = "called" /\ op[p] = "w" /\ rq = <<>> /\ Len(buf) >= cfg.cap
  /\ wq' = Append(wq, p)
  /\ pc' = [pc EXCEPT ![p] = "blocked"]
  /\ UNCHANGED <<cfg, host, buf, rq, op, val>>

\* a plain thread retries until its write can be completed: it never queues
MayQueue(p) == cfg.coro[p] = 1

Lin(p) ==
  \/ LinReadBuf(p) \/ LinReadDirect(p) \/ LinWriteDirect(p) \/ LinWriteBuf(p)
  \/ MayQueue(p) /\ (LinReadWait(p) \/ LinWriteWait(p))

RetRead(p, v) ==
  /\ pc[p] = "granted" /\ op[p] = "r" /\ val[p] = v /\ HostFree(p)
  /\ pc' = [pc EXCEPT ![p] = "idle"]
  /\ op' = [op EXCEPT ![p] = "-"]
  /\ UNCHANGED <<cfg, host, buf, rq, wq, val>>

RetWrite(p) ==
  /\ pc[p] = "granted" /\ op[p] = "w" /\ HostFree(p)
  /\ pc' = [pc EXCEPT ![p] = "idle"]
  /\ op' = [op EXCEPT ![p] = "-"]
  /\ UNCHANGED <<cfg, host, buf, rq, wq, val>>

\* a coroutine between two operations moves to another scheduler
Move(p, h) ==
  /\ pc[p] = "idle" /\ cfg.coro[p] = 1
  /\ host' = [host EXCEPT ![p] = h]
  /\ UNCHANGED <<cfg, buf, rq, wq, pc, op, val>>

\* nothing moves any more: whoever still waits has a reason to
Quiescent ==
  /\ \A p \in Procs : pc[p] \in {"idle", "blocked"} \/ (pc[p] = "called" /\ ~ MayQueue(p))
  /\ \A p \in Procs : (pc[p] = "called") =>
        (op[p] = "w" /\ rq = <<>> /\ Len(buf) >= cfg.cap)
Quiesce == Quiescent /\ UNCHANGED vars

(***************************** invariants **********************************)
Range(s) == {s[i] : i \in DOMAIN s}
TypeOK ==
  /\ Len(buf) <= cfg.cap
  /\ Range(rq) \subseteq {p \in Procs : pc[p] = "blocked" /\ op[p] = "r"}
  /\ Range(wq) \subseteq {p \in Procs : pc[p] = "blocked" /\ op[p] = "w"}
  /\ \A p \in Procs : pc[p] = "blocked" => p \in Range(rq) \cup Range(wq)
\* C02: nobody waits while it could go on
NoStranding ==
  /\ ~ (rq # <<>> /\ buf # <<>>)
  /\ ~ (rq # <<>> /\ wq # <<>>)
  /\ wq # <<>> => Len(buf) = cfg.cap
=============================================================================
