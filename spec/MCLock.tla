------------------------------- MODULE MCLock ------------------------------
EXTENDS Lock, TLC
CONSTANTS NP, NL, MaxOps
VARIABLES left, acq, batch
\* acq: thread -> locks it has by the results of its operations, batch: thread -> its current batch
mcvars == <<cfg, own, pc, op, ms, res, got, left, acq, batch>>
P == 1..NP
MCInit == /\ InitWith([nl |-> NL, np |-> NP]) /\ left = [p \in P |-> MaxOps]
          /\ acq = [p \in P |-> {}] /\ batch = [p \in P |-> <<>>]
Orders == IF NL = 2 THEN {<<1, 2>>, <<2, 1>>} ELSE {<<1, 2, 3>>, <<3, 2, 1>>, <<2, 3, 1>>, <<2, 1>>, <<3, 1>>}
\* a thread that blocks holds nothing; only what is held is released
Calls(p) ==
  \/ /\ left[p] > 0 /\ acq[p] = {} /\ left' = [left EXCEPT ![p] = @ - 1]
     /\ \/ \E m \in Locks : Call(p, "L", <<m>>)
        \/ \E a \in Orders : Call(p, "M", a)
     /\ UNCHANGED <<acq, batch>>
  \/ /\ left[p] > 0 /\ left' = [left EXCEPT ![p] = @ - 1]
     /\ \E m \in Locks : Call(p, "y", <<m>>)
     /\ UNCHANGED <<acq, batch>>
  \/ /\ batch[p] = <<>>
     /\ \E m \in acq[p] : Call(p, "u", <<m>>) /\ acq' = [acq EXCEPT ![p] = @ \ {m}]
     /\ UNCHANGED <<left, batch>>
  \/ /\ batch[p] # <<>>
     /\ Call(p, "U", batch[p]) /\ acq' = [acq EXCEPT ![p] = @ \ {batch[p][i] : i \in DOMAIN batch[p]}]
     /\ batch' = [batch EXCEPT ![p] = <<>>]
     /\ UNCHANGED left
MCSilent(p) == Silent(p) /\ UNCHANGED <<left, acq, batch>>
MCRet(p) ==
  /\ Ret(p, op[p], res[p]) /\ UNCHANGED left
  /\ acq' = [acq EXCEPT ![p] = CASE op[p] = "L" \/ (op[p] = "y" /\ res[p] = 1) -> @ \cup {ms[p][1]}
                                 [] op[p] = "M" -> @ \cup {ms[p][i] : i \in DOMAIN ms[p]}
                                 [] OTHER -> @]
  /\ batch' = [batch EXCEPT ![p] = IF op[p] = "M" THEN ms[p] ELSE @]
Done == (\A p \in P : pc[p] = "idle" /\ left[p] = 0 /\ acq[p] = {}) /\ UNCHANGED mcvars
MCNext == (\E p \in P : Calls(p) \/ MCSilent(p) \/ MCRet(p)) \/ Done
\* a batch lock that keeps trying gets its locks when they are free often enough
MCSpec == MCInit /\ [][MCNext]_mcvars
          /\ \A p \in P : WF_mcvars(Calls(p)) /\ WF_mcvars(MCRet(p)) /\ WF_mcvars(LinUnlock(p) /\ UNCHANGED <<left, acq, batch>>)
                          /\ SF_mcvars(LinTake(p) /\ UNCHANGED <<left, acq, batch>>)
                          /\ WF_mcvars(Give(p) /\ UNCHANGED <<left, acq, batch>>)
Exclusive == \A p \in P : /\ \A m \in acq[p] : own[m] = p
                          /\ \A q \in P : p # q => acq[p] \cap acq[q] = {}
NothingLeft == (\A p \in P : pc[p] = "idle" /\ acq[p] = {}) => \A m \in Locks : own[m] = 0
AllOrNothing == \A p \in P : (pc[p] = "granted" /\ op[p] = "M") => \A i \in DOMAIN ms[p] : own[ms[p][i]] = p
\* no deadlock: somebody can always go on
NoDeadlock == \/ \A p \in P : pc[p] = "idle"
              \/ \E p \in P : pc[p] \in {"granted", "busy"} \/ ENABLED LinTake(p) \/ ENABLED LinTryFails(p) \/ ENABLED LinUnlock(p) \/ ENABLED MTake(p)
                              \/ (pc[p] = "multi" /\ got[p] # {})
                              \/ (pc[p] = "idle" /\ acq[p] # {})
=============================================================================
