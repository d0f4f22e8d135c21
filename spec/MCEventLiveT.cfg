SPECIFICATION MCSpec
CONSTANTS NP = 2
  NE = 1
  MaxOps = 2
  Total = 4
  MaxNow = 2
  Ops = {"w", "t", "T", "s", "a"}
INVARIANTS TypeOK
PROPERTIES Ends Progress
CHECK_DEADLOCK TRUE
