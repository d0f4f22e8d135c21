-------------------------------- MODULE Lock --------------------------------
(***************************************************************************)
(* spinlock and batch_lock_t, used by plain threads.                       *)
(*   L lock (spins)   y try_lock   u unlock                                *)
(*   M batch lock of ms[p]         U release of the batch                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES
  cfg,   \* [nl |-> number of locks, np |-> number of threads], fixed
  own,   \* lock -> thread, 0: free
  pc,    \* "idle" | "called" | "multi" | "busy" | "granted"
  op, ms, res,
  got    \* indexes of ms[p] acquired (M) or still to be released (U)
vars == <<cfg, own, pc, op, ms, res, got>>
Procs == 1..cfg.np
Locks == 1..cfg.nl
InitWith(c) ==
  /\ cfg = c /\ own = [m \in 1..c.nl |-> 0]
  /\ pc = [p \in 1..c.np |-> "idle"] /\ op = [p \in 1..c.np |-> "-"]
  /\ ms = [p \in 1..c.np |-> <<>>] /\ res = [p \in 1..c.np |-> 0]
  /\ got = [p \in 1..c.np |-> {}]
Call(p, o, m) ==
  /\ pc[p] = "idle"
  /\ pc' = [pc EXCEPT ![p] = CASE m = <<>> -> "granted" [] o = "M" -> "multi" [] o = "U" -> "busy" [] OTHER -> "called"]
  /\ op' = [op EXCEPT ![p] = o] /\ ms' = [ms EXCEPT ![p] = m]
  /\ res' = [res EXCEPT ![p] = 0]
  /\ got' = [got EXCEPT ![p] = IF o = "U" THEN DOMAIN m ELSE {}]
  /\ UNCHANGED <<cfg, own>>
LinTake(p) ==
  /\ pc[p] = "called" /\ op[p] \in {"L", "y"} /\ own[ms[p][1]] = 0
  /\ own' = [own EXCEPT ![ms[p][1]] = p]
  /\ pc' = [pc EXCEPT ![p] = "granted"] /\ res' = [res EXCEPT ![p] = 1]
  /\ UNCHANGED <<cfg, op, ms, got>>
LinTryFails(p) ==
  /\ pc[p] = "called" /\ op[p] = "y" /\ own[ms[p][1]] # 0
  /\ pc' = [pc EXCEPT ![p] = "granted"] /\ UNCHANGED <<cfg, own, op, ms, res, got>>
LinUnlock(p) ==
  /\ pc[p] = "called" /\ op[p] = "u" /\ own[ms[p][1]] = p
  /\ own' = [own EXCEPT ![ms[p][1]] = 0]
  /\ pc' = [pc EXCEPT ![p] = "granted"] /\ UNCHANGED <<cfg, op, ms, res, got>>
MTake(p) ==
  /\ pc[p] = "multi"
  /\ \E i \in DOMAIN ms[p] \ got[p] :
       /\ own[ms[p][i]] = 0
       /\ own' = [own EXCEPT ![ms[p][i]] = p]
       /\ got' = [got EXCEPT ![p] = @ \cup {i}]
       /\ pc' = [pc EXCEPT ![p] = IF got[p] \cup {i} = DOMAIN ms[p] THEN "granted" ELSE "multi"]
  /\ UNCHANGED <<cfg, op, ms, res>>
\* gives one back: while it can not go on (M) or for good (U)
Give(p) ==
  /\ pc[p] \in {"multi", "busy"}
  /\ \E i \in got[p] :
       /\ own[ms[p][i]] = p
       /\ own' = [own EXCEPT ![ms[p][i]] = 0]
       /\ got' = [got EXCEPT ![p] = @ \ {i}]
       /\ pc' = [pc EXCEPT ![p] = IF @ = "busy" /\ got[p] = {i} THEN "granted" ELSE @]
  /\ UNCHANGED <<cfg, op, ms, res>>
Silent(p) == LinTake(p) \/ LinTryFails(p) \/ LinUnlock(p) \/ MTake(p) \/ Give(p)
Ret(p, o, r) ==
  /\ pc[p] = "granted" /\ op[p] = o /\ (o = "y" => res[p] = r)
  /\ pc' = [pc EXCEPT ![p] = "idle"] /\ op' = [op EXCEPT ![p] = "-"] /\ ms' = [ms EXCEPT ![p] = <<>>]
  /\ res' = [res EXCEPT ![p] = 0] /\ got' = [got EXCEPT ![p] = {}]
  /\ UNCHANGED <<cfg, own>>
\* whoever can not go on waits for a lock that somebody holds
Quiescent ==
  \A p \in Procs : \/ pc[p] = "idle"
                   \/ pc[p] = "called" /\ op[p] = "L" /\ own[ms[p][1]] # 0
                   \/ pc[p] = "multi" /\ \E i \in DOMAIN ms[p] : own[ms[p][i]] # 0
Quiesce == Quiescent /\ UNCHANGED vars
=============================================================================
