------------------------------ MODULE TrMutex ------------------------------
EXTENDS Mutex, TrBase
Ev(e) ==
  CASE e[1] = "C" -> Call(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "R" -> Ret(e[2], e[3], e[4])
    [] e[1] = "V" -> Move(e[2], e[3])
    [] e[1] = "A" -> Advance(e[2])
    [] e[1] = "Q" -> Quiesce
    [] OTHER -> FALSE
TrInit == TrStart /\ InitWith(Traces[t].cfg)
TrNext == (More /\ Ev(Cur) /\ Consume) \/ ((\E p \in Procs : Silent(p)) /\ Stay)
TrSpec == TrInit /\ [][TrNext]_<<vars, t, l>>
=============================================================================
