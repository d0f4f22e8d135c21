------------------------------ MODULE MCToken ------------------------------
(* Exhaustive: NP processes start, await; handlers invoked at any moment.  *)
EXTENDS Token, TLC
CONSTANTS NP, NK, KINDS, NVS
VARIABLES got      \* ghost: operation -> what its await gave, in order
mcvars == <<cfg, st, fired, by, kind, nv, arg, aw, got>>
MCInit ==
  /\ \E h \in [1..NP -> 1..2] : InitWith([host |-> h, n |-> NK])
  /\ got = [k \in 1..NK |-> <<>>]
MCStart == /\ \E p \in Procs, k \in Ops, ki \in KINDS, n \in NVS :
                (IF k = 1 THEN TRUE ELSE st[k - 1] # "new") /\ Start(p, k, ki, n)
           /\ UNCHANGED got
MCHandler == (\E k \in Ops, e \in {0, 7} : Handler(k, e, 3, 4)) /\ UNCHANGED got
MCEffect(k) == k \in Ops /\ TakesEffect(k) /\ UNCHANGED got
MCEnds(k) == k \in Ops /\ HandlerEnds(k) /\ UNCHANGED got
MCAwait == (\E p \in Procs, k \in Ops : Await(p, k)) /\ UNCHANGED got
MCResume(k) ==
  k \in Ops /\ LET o == Outcome(k) IN
    /\ \E p \in Procs : Resume(p, k, cfg.host[p], o[1], o[2], o[3])
    /\ got' = [got EXCEPT ![k] = Append(@, o)]
Done == (\A k \in Ops : st[k] = "set" /\ aw[k] = "done") /\ Quiesce /\ UNCHANGED got
MCNext == MCStart \/ MCHandler \/ MCAwait \/ (\E k \in Ops : MCEffect(k) \/ MCEnds(k) \/ MCResume(k)) \/ Done
MCSpec == MCInit /\ [][MCNext]_mcvars /\ \A k \in 1..NK : WF_mcvars(MCEffect(k)) /\ WF_mcvars(MCEnds(k)) /\ WF_mcvars(MCResume(k))
\* A01: at most one outcome per await, an error only if there was one, values only if there was none
Once == \A k \in Ops : Len(got[k]) <= 1
Faithful == \A k \in Ops : got[k] # <<>> =>
  LET o == got[k][1] IN
    /\ (o[1] # 0) <=> (kind[k] # "-" /\ arg[k][1] # 0)
    /\ o[1] = 0 => (nv[k] >= 1 => o[2] = 3) /\ (nv[k] >= 2 => o[3] = 4)
    /\ o[1] # 0 => o[1] = arg[k][1]
\* A01: an invoked handler resumes the awaiter
Resumed == \A k \in 1..NK : (k \in Ops /\ fired[k] > 0 /\ aw[k] = "waiting") ~> (k \in Ops /\ aw[k] = "done")
=============================================================================
