------------------------------- MODULE MCBind ------------------------------
EXTENDS Bind, Sequences, TLC
CONSTANTS NP, NS, NL, NK, MaxOps
VARIABLES left, hist
\* hist: thread -> the schedulers its unbound moments have been filled with, in order: for the invariants
mcvars == <<vars, left, hist>>
MCInit == InitWith([np |-> NP]) /\ left = MaxOps /\ hist = [p \in 1..NP |-> <<>>]
\* a thread that destroys a scheduler other threads are bound to is the user's fault
Safe(p, s) == \A r \in Threads \ {p} : bound[r] # s
Op(p) ==
  \/ \E s \in 1..NS : New(p, s)
  \/ \E s \in 1..NS : Safe(p, s) /\ Del(p, s)
  \/ \E x \in 1..NL, s \in 1..NS : Loc(p, x, s)
  \/ \E x \in 1..NL, s \in 1..NS : LocFor(p, x, s)
  \/ \E x \in DOMAIN loc : (loc[x] # 0 => Safe(p, loc[x])) /\ Unloc(p, x)
  \/ \E k \in 1..NK : Go(p, k)
  \/ \E k \in 1..NK, s \in alive \cup {0} : GoOn(p, k, s)
  \/ \E k \in DOMAIN task : Run(p, k, task[k], Sched(p))
MCNext == /\ left > 0 /\ left' = left - 1
          /\ \E p \in Threads : Op(p) /\ hist' = [r \in Threads |-> IF bound'[r] # bound[r] THEN Append(hist[r], bound'[r]) ELSE hist[r]]
MCSpec == MCInit /\ [][MCNext]_mcvars
TypeOK == /\ alive \subseteq 1..NS /\ \A x \in DOMAIN loc : loc[x] \in 0..NS
          /\ \A p \in Threads : bound[p] \in 0..NS
\* a thread's scheduler exists
Exists == \A p \in Threads : bound[p] # 0 => bound[p] \in alive
TasksSafe == \A k \in DOMAIN task : task[k] \in alive \cup {0}
\* the first one wins: a binding changes only from none, or to none
FirstWins == \A p \in Threads : \A i \in 2..Len(hist[p]) : hist[p][i - 1] = 0 \/ hist[p][i] = 0
\* a scheduler that a local_scheduler_t has made lives as long as it
OwnedLive == \A x, y \in DOMAIN loc : loc[x] # 0 => (loc[x] \in alive /\ (x # y => loc[x] # loc[y]))
\* only its own steps change what a thread is bound to
Mine == [][\E p \in Threads : \A r \in Threads \ {p} : bound'[r] = bound[r]]_mcvars
=============================================================================
