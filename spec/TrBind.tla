------------------------------- MODULE TrBind ------------------------------
EXTENDS Bind, TrBase
Ev(e) ==
  CASE e[1] = "n" -> New(e[2], e[3])
    [] e[1] = "d" -> Del(e[2], e[3])
    [] e[1] = "l" -> Loc(e[2], e[3], e[4])
    [] e[1] = "a" -> LocFor(e[2], e[3], e[4])
    [] e[1] = "x" -> Unloc(e[2], e[3])
    [] e[1] = "q" -> Query(e[2], e[3])
    [] e[1] = "g" -> Go(e[2], e[3])
    [] e[1] = "G" -> GoOn(e[2], e[3], e[4])
    [] e[1] = "t" -> Run(e[2], e[3], e[4], e[5])
    [] e[1] = "e" -> Ran(e[2], e[3])
    [] OTHER -> FALSE
TrInit == TrStart /\ InitWith(Traces[t].cfg)
TrNext == More /\ Ev(Cur) /\ Consume
TrSpec == TrInit /\ [][TrNext]_<<vars, t, l>>
=============================================================================
