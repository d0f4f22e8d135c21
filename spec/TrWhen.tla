------------------------------- MODULE TrWhen -------------------------------
EXTENDS When, TrBase
Ev(e) ==
  CASE e[1] = "C" -> Call(e[2], e[3], e[4])
    [] e[1] = "R" -> Ret(e[2])
    [] e[1] = "G" -> Go(e[2], e[3])
    [] e[1] = "H" -> GoRet(e[2])
    [] e[1] = "S" -> Resume(e[2], e[3])
    [] e[1] = "V" -> Result(e[2], e[3], e[4], e[5])
    [] e[1] \in {"y", "v", "a", "W"} -> Await(e[2], e[1], e[3])
    [] e[1] = "D" -> Return(e[2], e[3])
    [] e[1] = "Q" -> Quiesce
    [] e[1] = "Z" -> AllDone
    [] OTHER -> FALSE
TrInit == TrStart /\ InitWith(Traces[t].cfg)
Silent == (\E p \in Procs : SilentP(p)) \/ (\E k \in Str : SilentS(k))
TrNext == (More /\ Ev(Cur) /\ Consume) \/ (Silent /\ Stay)
TrSpec == TrInit /\ [][TrNext]_<<vars, t, l>>
=============================================================================
