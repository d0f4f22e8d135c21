----------------------------- MODULE TrChannel -----------------------------
EXTENDS Channel, TrBase
Ev(e) ==
  CASE e[1] = "C" /\ e[3] = "r" -> CallRead(e[2])
    [] e[1] = "C" /\ e[3] = "w" -> CallWrite(e[2], e[4])
    [] e[1] = "R" /\ e[3] = "r" -> RetRead(e[2], e[4])
    [] e[1] = "R" /\ e[3] = "w" -> RetWrite(e[2])
    [] e[1] = "V" -> Move(e[2], e[3])
    [] e[1] = "Q" -> Quiesce
    [] OTHER -> FALSE
TrInit == TrStart /\ InitWith(Traces[t].cfg)
TrNext == (More /\ Ev(Cur) /\ Consume) \/ ((\E p \in Procs : Lin(p)) /\ Stay)
TrSpec == TrInit /\ [][TrNext]_<<vars, t, l>>
=============================================================================
