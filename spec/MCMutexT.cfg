SPECIFICATION MCSpec
CONSTANTS NP = 3
  NM = 1
  MaxOps = 3
  Total = 6
  MaxNow = 1
  NT = 1
  Ops = {"l", "T", "L", "F", "y", "u", "i"}
INVARIANTS TypeOK NoStranding Exclusive NotEarly Truth
PROPERTIES OnlyOwner HandOver
CHECK_DEADLOCK TRUE
