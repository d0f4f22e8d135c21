SPECIFICATION MCSpec
CONSTANTS NP = 3
  NL = 2
  MaxOps = 2
INVARIANTS Exclusive NothingLeft AllOrNothing NoDeadlock
CHECK_DEADLOCK TRUE
