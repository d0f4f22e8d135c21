------------------------------- MODULE TrTask ------------------------------
EXTENDS Task, TrBase
Ev(e) ==
  CASE e[1] = "C" -> Call(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "R" -> Ret(e[2], e[3], e[4])
    [] e[1] = "W" -> Await(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "S" -> Resume(e[2], e[3], e[4], e[5])
    [] e[1] = "X" -> Leave(e[2], e[3], e[4])
    [] e[1] = "D" -> Unwound(e[2], e[3], e[4])
    [] e[1] = "q" -> Query(e[2], e[3], e[4], e[5], e[6], e[7])
    [] e[1] = "i" -> TaskIs(e[2], e[3])
    [] e[1] = "b" -> BatchBegin(e[2])
    [] e[1] = "e" -> BatchEnd(e[2], e[3])
    [] e[1] = "l" -> LoopCall(e[2])
    [] e[1] = "m" -> LoopRet(e[2])
    [] e[1] = "B" -> CbBegin(e[2], e[3])
    [] e[1] = "E" -> CbEnd(e[2], e[3])
    [] e[1] = "y" -> CapBegin(e[2], e[3])
    [] e[1] = "Y" -> CapEnd(e[2], e[3])
    [] e[1] = "A" -> Advance(e[2])
    [] e[1] = "Q" -> Quiesce
    [] e[1] = "Z" -> AllDone
    [] OTHER -> FALSE
TrInit == TrStart /\ InitWith(Traces[t].cfg)
Silent == (\E p \in Procs : SilentP(p)) \/ (\E h \in Scheds : SilentH(h)) \/ (\E u \in Tasks : SilentT(u))
TrNext == (More /\ Ev(Cur) /\ Consume) \/ (Silent /\ Stay)
TrSpec == TrInit /\ [][TrNext]_<<vars, t, l>>
=============================================================================
