------------------------------ MODULE MCEvent ------------------------------
EXTENDS Event, TLC
CONSTANTS NP, NE, MaxOps, Total, MaxNow, Ops     \* Total: bound on the calls of all processes together
VARIABLES left, sig, used, lost
\* ghosts per event: signals given (initial one included), signals that satisfied a wait, signals discarded by reset
mcvars == <<cfg, now, host, cnt, wq, pc, op, es, need, dl, res, busy, left, sig, used, lost>>

MCInit ==
  /\ \E i \in [1..NE -> {0, 1}], h \in {[p \in 1..NP |-> p], [p \in 1..NP |-> 1]} : InitWith([init |-> i, host |-> h])
  /\ left = [p \in 1..NP |-> MaxOps]
  /\ sig = [e \in 1..NE |-> cnt[e]] /\ used = [e \in 1..NE |-> 0] /\ lost = [e \in 1..NE |-> 0]

Args(o) == IF o \in {"W", "T"} THEN (IF NE = 1 THEN {<<>>, <<1>>} ELSE {<<>>, <<1, 2>>, <<2, 1>>}) ELSE {<<e>> : e \in 1..NE}
Dls(o) == IF o \in {"t", "T"} THEN {now - 1, now + 1} ELSE {NoDl}
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Room == Sum(left, NP) > NP * MaxOps - Total
MCCall(p) ==
  /\ left[p] > 0 /\ Room
  /\ \E o \in Ops : \E a \in Args(o) : \E d \in Dls(o) : Call(p, o, a, d)
  /\ left' = [left EXCEPT ![p] = @ - 1]
  /\ UNCHANGED <<sig, used, lost>>
Taken(p) == {e \in EvSet(p) : cnt'[e] < cnt[e]}
MCSilent(p) ==
  /\ Silent(p)
  /\ UNCHANGED left
  /\ sig' = [e \in Events |-> IF pc[p] = "called" /\ op[p] = "s" /\ es[p][1] = e THEN sig[e] + 1 ELSE sig[e]]
  /\ lost' = [e \in Events |-> IF pc[p] = "called" /\ op[p] = "x" /\ es[p][1] = e THEN lost[e] + cnt[e] ELSE lost[e]]
  /\ used' = [e \in Events |->
        IF pc[p] = "called" /\ IsWait(op[p]) /\ e \in Taken(p) THEN used[e] + 1
        ELSE IF pc[p] = "called" /\ op[p] = "s" /\ es[p][1] = e /\ wq[e] # <<>> THEN used[e] + 1
        ELSE used[e]]
MCRet(p) == Ret(p, op[p], res[p]) /\ UNCHANGED <<left, sig, used, lost>>
MCAdvance == now < MaxNow /\ Advance(now + 1) /\ UNCHANGED <<left, sig, used, lost>>
Done == Quiescent /\ (\A p \in Procs : pc[p] = "idle" => left[p] = 0 \/ ~Room) /\ now = MaxNow /\ UNCHANGED mcvars
MCNext == (\E p \in Procs : MCCall(p) \/ MCSilent(p) \/ MCRet(p)) \/ MCAdvance \/ Done
MCSpec == MCInit /\ [][MCNext]_mcvars
          /\ \A p \in 1..NP : WF_mcvars(MCSilent(p) \/ MCRet(p))
          /\ WF_mcvars(MCAdvance)

\* E01: a signal satisfies one wait or is remembered or is discarded by reset
Conserved == \A e \in Events : sig[e] = cnt[e] + used[e] + lost[e]
\* E02: signal_all leaves remembered signals unchanged and nobody pending
SigAllOK == [][\A p \in Procs : (op[p] = "a" /\ op'[p] = "a" /\ pc'[p] = "granted" /\ pc[p] # "granted")
                   => (cnt' = cnt /\ wq'[es[p][1]] = <<>>)]_mcvars
\* E03: a timed wait fails only after its deadline
NotEarly == \A p \in Procs : (pc[p] = "granted" /\ IsWait(op[p]) /\ res[p] = 0) => (op[p] \in {"t", "T"} /\ dl[p] <= now)
\* E03/E04: a timed wait ends; a granted operation returns
Ends == \A p \in 1..NP : (pc[p] = "blocked" /\ dl[p] # NoDl /\ dl[p] <= MaxNow) ~> pc[p] = "idle"
Progress == \A p \in 1..NP : (pc[p] = "granted" \/ (pc[p] = "called" /\ ~IsWait(op[p]))) ~> pc[p] = "idle"
=============================================================================
