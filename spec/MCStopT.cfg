SPECIFICATION MCSpec
CONSTANTS NP = 3
  NC = 3
  MaxOps = 2
  Depth = 4
INVARIANTS OneWinner AllRun NotRunningWhenDead
PROPERTIES BeginsRight
CHECK_DEADLOCK TRUE
