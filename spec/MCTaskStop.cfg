SPECIFICATION MCSpec
CONSTANTS NS = 1
  NP = 1
  NT = 2
  NA = 1
  MaxD = 0
  MaxNow = 0
  Total = 5
  Kinds = {"y"}
  Ops = {"go", "gs", "reg", "rs", "rs1", "rsa"}
  Loop = FALSE
  FIN = {1}
INVARIANTS OnePlace NoMissed WaitersWait FutOpen CbSound
PROPERTIES Fifo BatchFixed Once StpStays RsaAll
CHECK_DEADLOCK TRUE
