------------------------------ MODULE TrToken ------------------------------
EXTENDS Token, TrBase
Ev(e) ==
  CASE e[1] = "S" -> Start(e[2], e[3], e[4], e[5])
    [] e[1] = "H" -> Handler(e[2], e[3], e[4], e[5])
    [] e[1] = "h" -> HandlerEnds(e[2])
    [] e[1] = "W" -> Await(e[2], e[3])
    [] e[1] = "R" -> Resume(e[2], e[3], e[4], e[5], e[6], e[7])
    [] e[1] = "Q" -> Quiesce
    [] OTHER -> FALSE
TrInit == TrStart /\ InitWith(Traces[t].cfg)
TrNext == (More /\ Ev(Cur) /\ Consume) \/ ((\E k \in Ops : Silent(k)) /\ Stay)
TrSpec == TrInit /\ [][TrNext]_<<vars, t, l>>
=============================================================================
