SPECIFICATION MCSpec
CONSTANTS NP = 3
  NE = 2
  MaxOps = 2
  Total = 4
  MaxNow = 1
  Ops = {"W", "T", "s"}
INVARIANTS TypeOK NoStranding Conserved NotEarly
PROPERTIES SigAllOK
CHECK_DEADLOCK TRUE
