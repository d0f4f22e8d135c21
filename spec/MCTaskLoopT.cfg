SPECIFICATION MCSpec
CONSTANTS NS = 2
  NP = 1
  NT = 2
  NA = 1
  MaxD = 1
  MaxNow = 1
  Total = 3
  Kinds = {"n", "y", "v"}
  Ops = {"go", "gof", "set", "ts"}
  Loop = TRUE
  FIN = {1}
INVARIANTS OnePlace NoMissed WaitersWait FutOpen
PROPERTIES Fifo BatchFixed Once NotEarly ViaOnly OutOK
CHECK_DEADLOCK TRUE
