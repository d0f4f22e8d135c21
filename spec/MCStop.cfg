SPECIFICATION MCSpec
CONSTANTS NP = 2
  NC = 2
  MaxOps = 3
  Depth = 4
INVARIANTS OneWinner AllRun NotRunningWhenDead
PROPERTIES BeginsRight
CHECK_DEADLOCK TRUE
