----------------------------- MODULE MCChannel -----------------------------
(* Exhaustive exploration: every process performs up to MaxOps operations  *)
(* of any kind in any order, on any placement of the processes.            *)
EXTENDS Channel, TLC
CONSTANTS NP, MaxOps, Caps, Thread   \* Thread: the last process is a plain thread that only writes
VARIABLES left, sent, got, order     \* ghosts
mcvars == <<cfg, host, buf, rq, wq, pc, op, val, left, sent, got, order>>

Hosts == IF NP = 2 THEN {<<1, 1>>, <<1, 2>>} ELSE IF NP = 3 THEN {<<1, 1, 2>>, <<1, 2, 3>>} ELSE {<<1, 1, 2, 3>>}
MCInit ==
  /\ \E c \in Caps, h \in Hosts :
       InitWith([cap |-> c, host |-> h, coro |-> [p \in 1..NP |-> IF Thread /\ p = NP THEN 0 ELSE 1]])
  /\ left = [p \in 1..NP |-> MaxOps]
  /\ sent = <<>> /\ got = <<>> /\ order = <<>>

Val(p) == p * 10 + left[p]
MCCall(p) ==
  /\ left[p] > 0
  /\ CallWrite(p, Val(p)) \/ (cfg.coro[p] = 1 /\ CallRead(p))
  /\ left' = [left EXCEPT ![p] = @ - 1]
  /\ UNCHANGED <<sent, got, order>>
\* ghosts: values in the order accepted for delivery, values in the order delivered
Granted(q) == pc[q] # "granted" /\ pc'[q] = "granted"
MCLin(p) ==
  /\ Lin(p)
  /\ sent' = IF op[p] = "w" THEN Append(sent, val[p]) ELSE sent
  /\ got' = LET R == {q \in Procs : op[q] = "r" /\ Granted(q)}
            IN IF R = {} THEN got ELSE Append(got, val'[CHOOSE q \in R : TRUE])
  /\ UNCHANGED <<left, order>>
MCRet(p) ==
  /\ RetRead(p, val[p]) \/ RetWrite(p)
  /\ UNCHANGED <<left, sent, got, order>>
Done == /\ \A p \in Procs : pc[p] \in {"idle", "blocked", "called"}
        /\ \A p \in Procs : (pc[p] = "idle" => left[p] = 0)
        /\ Quiescent
        /\ UNCHANGED mcvars
MCNext == (\E p \in Procs : MCCall(p) \/ MCLin(p) \/ MCRet(p)) \/ Done
MCSpec == MCInit /\ [][MCNext]_mcvars /\ \A p \in 1..4 : WF_mcvars(p \in Procs /\ (MCLin(p) \/ MCRet(p)))

\* C01: what was delivered is a prefix of what was sent, and what is missing is still there
InOrder ==
  /\ Len(got) <= Len(sent)
  /\ SubSeq(sent, 1, Len(got)) = got
Conserved ==
  LET pending == buf \o [i \in DOMAIN wq |-> val[wq[i]]]
  IN sent = got \o pending
NoDup == \A i, j \in DOMAIN got : i # j => got[i] # got[j]
\* C02: a granted operation returns; an operation whose effect is possible completes
Progress == \A p \in 1..4 : (p \in Procs /\ pc[p] = "granted") ~> (p \in Procs /\ pc[p] = "idle")
LinSoon == \A p \in 1..4 : (p \in Procs /\ pc[p] = "called" /\ MayQueue(p)) ~> (p \in Procs /\ pc[p] # "called")
=============================================================================
