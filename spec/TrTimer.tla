------------------------------- MODULE TrTimer -----------------------------
EXTENDS Timer, TrBase
Ev(e) ==
  CASE e[1] = "C" -> Call(e[2], e[3], e[4], e[5])
    [] e[1] = "R" -> Ret(e[2], e[3], e[4])
    [] e[1] = "B" -> CbBegin(e[2], e[3], e[4])
    [] e[1] = "E" -> CbEnd(e[2], e[3])
    [] e[1] = "A" -> Advance(e[2])
    [] e[1] = "Q" -> Quiesce
    [] e[1] = "Z" -> AllDone
    [] OTHER -> FALSE
TrInit == TrStart /\ InitWith(Traces[t].cfg)
Silent == \E p \in Procs : SilentP(p)
TrNext == (More /\ Ev(Cur) /\ Consume) \/ (Silent /\ Stay)
TrSpec == TrInit /\ [][TrNext]_<<vars, t, l>>
=============================================================================
