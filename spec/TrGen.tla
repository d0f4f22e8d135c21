------------------------------- MODULE TrGen --------------------------------
EXTENDS Gen, TrBase
Ev(e) ==
  CASE e[1] = "C" -> Call(e[2], e[3], e[4], e[5])
    [] e[1] = "R" -> Ret(e[2], e[3], e[4], e[5])
    [] e[1] = "S" -> Enter(e[2], e[3])
    [] e[1] = "Y" -> Yield(e[2], e[3], e[4])
    [] e[1] = "D" -> Return(e[2], e[3], e[4])
    [] e[1] = "L" -> Locals(e[2], e[3])
    [] e[1] = "P" -> Frame(e[2], e[3])
    [] e[1] = "E" -> Empty(e[2])
    [] e[1] = "Q" -> Quiesce
    [] e[1] = "Z" -> End
    [] OTHER -> FALSE
TrInit == TrStart /\ InitWith(Traces[t].cfg)
Silent == \E p \in Procs : SilentP(p)
TrNext == (More /\ Ev(Cur) /\ Consume) \/ (Silent /\ Stay)
TrSpec == TrInit /\ [][TrNext]_<<vars, t, l>>
=============================================================================
