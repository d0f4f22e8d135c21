SPECIFICATION MCSpec
CONSTANTS NS = 2
  NP = 1
  NT = 2
  NA = 1
  MaxD = 1
  MaxNow = 0
  Total = 3
  Kinds = {"y", "c", "a", "v"}
  Ops = {"go", "gof", "set"}
  Loop = FALSE
  FIN = {1}
INVARIANTS OnePlace NoMissed WaitersWait FutOpen
PROPERTIES Fifo BatchFixed Once NotEarly ViaOnly
CHECK_DEADLOCK TRUE
