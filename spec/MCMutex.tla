------------------------------ MODULE MCMutex ------------------------------
EXTENDS Mutex, TLC
CONSTANTS NP, NM, MaxOps, Total, MaxNow, Ops, NT    \* NT: how many of the processes are plain threads
VARIABLES left, held, arr
\* ghosts: held: key -> mutex -> acquisitions minus releases, by the results of the operations and the steps of the
\* multi operations; arr: the waiting processes in the order of their arrival
mcvars == <<cfg, now, host, own, cnt, wq, pc, op, ms, key, dl, res, got, wi, left, held, arr>>
P == 1..NP
M == 1..NM
MCInit ==
  /\ InitWith([nm |-> NM, host |-> [p \in P |-> IF NP - p < NT THEN 10 + p ELSE 1 + (p % 2)],
               coro |-> [p \in P |-> IF NP - p < NT THEN 0 ELSE 1]])
  /\ left = [p \in P |-> MaxOps]
  /\ held = [k \in P |-> [m \in M |-> 0]]
  /\ arr = <<>>
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Room == Sum(left, NP) > NP * MaxOps - Total
Allowed(p) == IF cfg.coro[p] = 1 THEN Ops \ {"L", "F"} ELSE Ops \ {"l", "T"}
Args(o) == IF o \in {"M", "U"} THEN (IF NM = 1 THEN {<<1>>} ELSE {<<1, 2>>, <<2, 1>>}) ELSE {<<m>> : m \in M}
Dls(o) == IF o \in {"T", "F"} THEN {now - 1, now + 1} ELSE {NoDl}
MCCall(p) ==
  /\ left[p] > 0 /\ Room
  /\ \E o \in Allowed(p) : \E a \in Args(o) : \E d \in Dls(o) : Call(p, o, a, p, d)
  /\ left' = [left EXCEPT ![p] = @ - 1]
  /\ UNCHANGED <<held, arr>>
\* k holds m once more in the primed state: what an acquisition or a hand-over gives
NewHeld(k, m) ==
  LET gain == IF \/ own'[m] = k /\ own[m] # k
                 \/ own'[m] = k /\ cnt'[m] > cnt[m] THEN 1 ELSE 0
      loss == IF \/ own[m] = k /\ own'[m] # k
                 \/ own[m] = k /\ own'[m] = k /\ cnt'[m] < cnt[m] THEN 1 ELSE 0
  IN held[k][m] + gain - loss
MCSilent(p) ==
  /\ Silent(p)
  /\ UNCHANGED left
  /\ held' = [k \in P |-> [m \in M |-> NewHeld(k, m)]]
  /\ LET still == SelectSeq(arr, LAMBDA q : pc'[q] = "blocked")
     IN arr' = IF pc[p] # "blocked" /\ pc'[p] = "blocked" THEN Append(still, p) ELSE still
MCRet(p) == Ret(p, op[p], res[p]) /\ UNCHANGED <<left, held, arr>>
MCAdvance == now < MaxNow /\ Advance(now + 1) /\ UNCHANGED <<left, held, arr>>
Done == Quiescent /\ (\A p \in P : pc[p] = "idle" => left[p] = 0 \/ ~Room) /\ now = MaxNow /\ UNCHANGED mcvars
MCNext == (\E p \in P : MCCall(p) \/ MCSilent(p) \/ MCRet(p)) \/ MCAdvance \/ Done
MCSpec == MCInit /\ [][MCNext]_mcvars
          /\ \A p \in P : WF_mcvars(MCSilent(p) \/ MCRet(p))
          /\ WF_mcvars(MCAdvance)

\* M01: one owner at a time; free again only after as many releases as acquisitions
Exclusive ==
  \A m \in M : /\ \A k, j \in P : (held[k][m] > 0 /\ held[j][m] > 0) => k = j
               /\ \A k \in P : held[k][m] > 0 <=> own[m] = k
               /\ \A k \in P : own[m] = k => held[k][m] = cnt[m]
\* M01: nobody but the owner gives a mutex away
OnlyOwner == [][\A m \in M : (own[m] # 0 /\ (own'[m] # own[m] \/ cnt'[m] < cnt[m]))
                   => \E p \in P : key[p] = own[m] /\ op[p] \in {"u", "U", "M"} /\ pc[p] \in {"called", "busy", "multi"}]_mcvars
\* M02: a mutex passes to the one that has waited longest, and to nobody else while somebody waits
HandOver == [][\A m \in M :
     /\ (wq[m] # <<>> /\ own'[m] # own[m]) =>
           \E q \in Range(wq[m]) : /\ own'[m] = key[q]
                                   /\ \A i, j \in DOMAIN arr : (arr[j] = q /\ i < j) => arr[i] \notin Range(wq[m])
                                   /\ pc'[q] \in {"granted", "multi"}
     /\ (own[m] = 0 /\ own'[m] # 0) => wq[m] = <<>>]_mcvars
\* M03
NotEarly == \A p \in P : (pc[p] = "granted" /\ op[p] \in {"T", "F"} /\ res[p] = 0) => dl[p] <= now
Truth == \A p \in P : (pc[p] = "granted" /\ op[p] \in {"l", "T", "L", "F"} /\ res[p] = 1) => own[ms[p][1]] = key[p]
\* M04
AllOrNothing == \A p \in P : (pc[p] = "granted" /\ op[p] = "M") => \A i \in DOMAIN ms[p] : own[ms[p][i]] = key[p]
=============================================================================
