------------------------------- MODULE Mutex -------------------------------
(***************************************************************************)
(* mutex_t: recursive, owned by a root coroutine or by an explicit address *)
(* (both: a key).  Operations, on the mutexes ms[p] with the key key[p]:   *)
(*   l lock (suspends)      T lock until a deadline (suspends)             *)
(*   L lock of a plain thread (spins)   F the same until a deadline        *)
(*   y try_lock    u unlock    i is_locked                                 *)
(*   M multi-lock           U multi-unlock, or the release of its guard    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  cfg,    \* [nm |-> number of mutexes, host |-> Seq(Nat), coro |-> Seq(0..1)], fixed
  now,
  host,   \* process -> host it runs on
  own,    \* mutex -> key of the owner, 0: free
  cnt,    \* mutex -> recursion depth
  wq,     \* mutex -> waiting processes, longest first
  pc,     \* "idle" | "called" | "failed" | "multi" | "busy" | "blocked" | "granted"
  op, ms, key, dl, res,
  got,    \* multi operations: indexes of ms[p] acquired (M) or still to be released (U)
  wi      \* multi-lock: the index it is queued for

vars == <<cfg, now, host, own, cnt, wq, pc, op, ms, key, dl, res, got, wi>>
NoDl == -1000000000

Procs == DOMAIN cfg.host
Mtx == 1..cfg.nm
HostFree(p) == \A q \in Procs : (q # p /\ host[q] = host[p]) => pc[q] # "called"

InitWith(c) ==
  /\ cfg = c /\ now = 0 /\ host = c.host
  /\ own = [m \in 1..c.nm |-> 0] /\ cnt = [m \in 1..c.nm |-> 0]
  /\ wq = [m \in 1..c.nm |-> <<>>]
  /\ pc = [p \in DOMAIN c.host |-> "idle"]
  /\ op = [p \in DOMAIN c.host |-> "-"]
  /\ ms = [p \in DOMAIN c.host |-> <<>>]
  /\ key = [p \in DOMAIN c.host |-> 0]
  /\ dl = [p \in DOMAIN c.host |-> NoDl]
  /\ res = [p \in DOMAIN c.host |-> 0]
  /\ got = [p \in DOMAIN c.host |-> {}]
  /\ wi = [p \in DOMAIN c.host |-> 0]

Without(s, p) == SelectSeq(s, LAMBDA x : x # p)
CanTake(m, k) == own[m] \in {0, k}

Call(p, o, m, k, d) ==
  /\ pc[p] = "idle" /\ HostFree(p)
  /\ pc' = [pc EXCEPT ![p] = CASE o = "M" -> IF m = <<>> THEN "granted" ELSE "multi"
                               [] o = "U" -> IF m = <<>> THEN "granted" ELSE "busy"
                               [] OTHER -> "called"]
  /\ op' = [op EXCEPT ![p] = o]
  /\ ms' = [ms EXCEPT ![p] = m]
  /\ key' = [key EXCEPT ![p] = k]
  /\ dl' = [dl EXCEPT ![p] = IF o \in {"T", "F"} THEN d ELSE NoDl]
  /\ res' = [res EXCEPT ![p] = 0]
  /\ got' = [got EXCEPT ![p] = IF o = "U" THEN DOMAIN m ELSE {}]
  /\ UNCHANGED <<cfg, now, host, own, cnt, wq, wi>>

Take(m, k) == own' = [own EXCEPT ![m] = k] /\ cnt' = [cnt EXCEPT ![m] = @ + 1]

\* p acquires at once
LinTake(p) ==
  /\ pc[p] \in {"called", "failed"} /\ op[p] \in {"l", "T", "L", "F", "y"}
  /\ CanTake(ms[p][1], key[p])
  /\ Take(ms[p][1], key[p])
  /\ pc' = [pc EXCEPT ![p] = "granted"] /\ res' = [res EXCEPT ![p] = 1]
  /\ UNCHANGED <<cfg, now, host, wq, op, ms, key, dl, got, wi>>
LinTryFails(p) ==
  /\ pc[p] = "called" /\ op[p] = "y"
  /\ ~CanTake(ms[p][1], key[p])
  /\ pc' = [pc EXCEPT ![p] = "granted"]
  /\ UNCHANGED <<cfg, now, host, own, cnt, wq, op, ms, key, dl, res, got, wi>>
LinQueue(p) ==
  /\ pc[p] = "called" /\ op[p] \in {"l", "T"}
  /\ ~CanTake(ms[p][1], key[p])
  /\ wq' = [wq EXCEPT ![ms[p][1]] = Append(@, p)]
  /\ pc' = [pc EXCEPT ![p] = "blocked"]
  /\ UNCHANGED <<cfg, now, host, own, cnt, op, ms, key, dl, res, got, wi>>
\* a spinning timed lock has failed at least once, then gives up at its deadline
SpinFails(p) ==
  /\ pc[p] = "called" /\ op[p] = "F"
  /\ ~CanTake(ms[p][1], key[p])
  /\ pc' = [pc EXCEPT ![p] = "failed"]
  /\ UNCHANGED <<cfg, now, host, own, cnt, wq, op, ms, key, dl, res, got, wi>>
SpinTimeOut(p) ==
  /\ pc[p] = "failed" /\ dl[p] <= now
  /\ pc' = [pc EXCEPT ![p] = "granted"] /\ res' = [res EXCEPT ![p] = 0]
  /\ UNCHANGED <<cfg, now, host, own, cnt, wq, op, ms, key, dl, got, wi>>
LinIsLocked(p) ==
  /\ pc[p] = "called" /\ op[p] = "i"
  /\ res' = [res EXCEPT ![p] = IF own[ms[p][1]] = 0 THEN 0 ELSE 1]
  /\ pc' = [pc EXCEPT ![p] = "granted"]
  /\ UNCHANGED <<cfg, now, host, own, cnt, wq, op, ms, key, dl, got, wi>>

\* one release of m with key k by me, which is in state st, with the index set g, afterwards
Release(m, k, me, st, g) ==
  IF own[m] # k THEN
    /\ pc' = [pc EXCEPT ![me] = st] /\ got' = [got EXCEPT ![me] = g]
    /\ UNCHANGED <<own, cnt, wq, res>>
  ELSE IF cnt[m] > 1 THEN
    /\ cnt' = [cnt EXCEPT ![m] = @ - 1]
    /\ pc' = [pc EXCEPT ![me] = st] /\ got' = [got EXCEPT ![me] = g]
    /\ UNCHANGED <<own, wq, res>>
  ELSE IF wq[m] = <<>> THEN
    /\ own' = [own EXCEPT ![m] = 0] /\ cnt' = [cnt EXCEPT ![m] = 0]
    /\ pc' = [pc EXCEPT ![me] = st] /\ got' = [got EXCEPT ![me] = g]
    /\ UNCHANGED <<wq, res>>
  ELSE LET q == Head(wq[m]) IN      \* hand over
    /\ own' = [own EXCEPT ![m] = key[q]]
    /\ cnt' = cnt
    /\ wq' = [wq EXCEPT ![m] = Tail(@)]
    /\ IF op[q] = "M"
         THEN LET gq == got[q] \cup {wi[q]} IN
              /\ pc' = [pc EXCEPT ![me] = st, ![q] = IF gq = DOMAIN ms[q] THEN "granted" ELSE "multi"]
              /\ got' = [got EXCEPT ![me] = g, ![q] = gq]
              /\ res' = res
         ELSE /\ pc' = [pc EXCEPT ![me] = st, ![q] = "granted"]
              /\ got' = [got EXCEPT ![me] = g]
              /\ res' = [res EXCEPT ![q] = 1]

LinUnlock(p) ==
  /\ pc[p] = "called" /\ op[p] = "u"
  /\ Release(ms[p][1], key[p], p, "granted", {})
  /\ UNCHANGED <<cfg, now, host, op, ms, key, dl, wi>>

\* multi-unlock: each listed mutex once
UStep(p) ==
  /\ pc[p] = "busy" /\ op[p] = "U"
  /\ \E i \in got[p] :
       LET g == got[p] \ {i} IN
         Release(ms[p][i], key[p], p, IF g = {} THEN "granted" ELSE "busy", g)
  /\ UNCHANGED <<cfg, now, host, op, ms, key, dl, wi>>

\* multi-lock: takes what it can, gives back what it has, queues only while it holds nothing of its own
MTake(p) ==
  /\ pc[p] = "multi"
  /\ \E i \in DOMAIN ms[p] \ got[p] :
       /\ CanTake(ms[p][i], key[p])
       /\ Take(ms[p][i], key[p])
       /\ got' = [got EXCEPT ![p] = @ \cup {i}]
       /\ pc' = [pc EXCEPT ![p] = IF got[p] \cup {i} = DOMAIN ms[p] THEN "granted" ELSE "multi"]
  /\ UNCHANGED <<cfg, now, host, wq, op, ms, key, dl, res, wi>>
MBack(p) ==
  /\ pc[p] = "multi"
  /\ \E i \in got[p] : Release(ms[p][i], key[p], p, "multi", got[p] \ {i})
  /\ UNCHANGED <<cfg, now, host, op, ms, key, dl, wi>>
MQueue(p) ==
  /\ pc[p] = "multi" /\ got[p] = {} /\ cfg.coro[p] = 1
  /\ \E i \in DOMAIN ms[p] :
       /\ ~CanTake(ms[p][i], key[p])
       /\ wq' = [wq EXCEPT ![ms[p][i]] = Append(@, p)]
       /\ wi' = [wi EXCEPT ![p] = i]
  /\ pc' = [pc EXCEPT ![p] = "blocked"]
  /\ UNCHANGED <<cfg, now, host, own, cnt, op, ms, key, dl, res, got>>

TimeOut(p) ==
  /\ pc[p] = "blocked" /\ op[p] = "T" /\ dl[p] <= now
  /\ wq' = [m \in Mtx |-> Without(wq[m], p)]
  /\ res' = [res EXCEPT ![p] = 0]
  /\ pc' = [pc EXCEPT ![p] = "granted"]
  /\ UNCHANGED <<cfg, now, host, own, cnt, op, ms, key, dl, got, wi>>

Silent(p) ==
  \/ LinTake(p) \/ LinTryFails(p) \/ LinQueue(p) \/ SpinFails(p) \/ SpinTimeOut(p) \/ LinIsLocked(p)
  \/ LinUnlock(p) \/ UStep(p) \/ MTake(p) \/ MBack(p) \/ MQueue(p) \/ TimeOut(p)

Ret(p, o, r) ==
  /\ pc[p] = "granted" /\ op[p] = o /\ HostFree(p)
  /\ o \in {"y", "T", "F", "i"} => res[p] = r
  /\ pc' = [pc EXCEPT ![p] = "idle"]
  /\ op' = [op EXCEPT ![p] = "-"]
  /\ ms' = [ms EXCEPT ![p] = <<>>]
  /\ key' = [key EXCEPT ![p] = 0]
  /\ dl' = [dl EXCEPT ![p] = NoDl]
  /\ res' = [res EXCEPT ![p] = 0]
  /\ got' = [got EXCEPT ![p] = {}]
  /\ wi' = [wi EXCEPT ![p] = 0]
  /\ UNCHANGED <<cfg, now, host, own, cnt, wq>>

\* the coroutine has moved to another scheduler
Move(p, h) ==
  /\ pc[p] = "idle" /\ host' = [host EXCEPT ![p] = h]
  /\ UNCHANGED <<cfg, now, own, cnt, wq, pc, op, ms, key, dl, res, got, wi>>

Advance(x) == x > now /\ now' = x /\ UNCHANGED <<cfg, host, own, cnt, wq, pc, op, ms, key, dl, res, got, wi>>

\* nothing can go on: waits are for mutexes somebody holds, and not overdue
Quiescent ==
  \A p \in Procs :
    \/ pc[p] = "idle"
    \/ pc[p] = "blocked" /\ (op[p] = "T" => dl[p] > now)
    \/ pc[p] = "called" /\ op[p] = "L" /\ ~CanTake(ms[p][1], key[p])
    \/ pc[p] \in {"called", "failed"} /\ op[p] = "F" /\ ~CanTake(ms[p][1], key[p]) /\ dl[p] >= now
    \/ pc[p] = "multi" /\ cfg.coro[p] = 0 /\ \E i \in DOMAIN ms[p] : ~CanTake(ms[p][i], key[p])
Quiesce == Quiescent /\ UNCHANGED vars

(***************************** invariants **********************************)
Range(s) == {s[i] : i \in DOMAIN s}
TypeOK ==
  /\ \A m \in Mtx : (own[m] = 0) <=> (cnt[m] = 0)
  /\ \A m \in Mtx : cnt[m] >= 0
  /\ \A m \in Mtx : \A p \in Range(wq[m]) : pc[p] = "blocked"
  /\ \A m, n \in Mtx : m # n => Range(wq[m]) \cap Range(wq[n]) = {}
  /\ \A p \in Procs : pc[p] = "blocked" => \E m \in Mtx : p \in Range(wq[m])
\* M02: nobody is suspended on a free mutex, nor on one it owns
NoStranding == \A m \in Mtx : wq[m] # <<>> => own[m] # 0
\* M04: a multi-lock never waits in a queue while it holds anything it has acquired: no circular wait
NoHoldAndWait == \A p \in Procs : (pc[p] = "blocked" /\ op[p] = "M") => got[p] = {}
=============================================================================
