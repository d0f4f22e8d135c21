SPECIFICATION MCSpec
CONSTANTS NP = 3
  NM = 2
  MaxOps = 2
  Total = 5
  MaxNow = 0
  NT = 1
  Ops = {"l", "u", "M", "U"}
INVARIANTS TypeOK NoStranding Exclusive NoHoldAndWait AllOrNothing
PROPERTIES OnlyOwner HandOver
CHECK_DEADLOCK TRUE
