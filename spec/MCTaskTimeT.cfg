SPECIFICATION MCSpec
CONSTANTS NS = 1
  NP = 1
  NT = 2
  NA = 1
  MaxD = 1
  MaxNow = 2
  Total = 6
  Kinds = {"n", "a"}
  Ops = {"go", "ts", "rsa", "gs", "reg", "set"}
  Loop = FALSE
  FIN = {1}
INVARIANTS OnePlace NoMissed WaitersWait FutOpen
PROPERTIES Fifo BatchFixed Once NotEarly ViaOnly
CHECK_DEADLOCK TRUE
