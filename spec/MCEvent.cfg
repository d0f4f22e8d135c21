SPECIFICATION MCSpec
CONSTANTS NP = 3
  NE = 1
  MaxOps = 2
  Total = 4
  MaxNow = 1
  Ops = {"w", "t", "s", "a", "x"}
INVARIANTS TypeOK NoStranding Conserved NotEarly
PROPERTIES SigAllOK
CHECK_DEADLOCK TRUE
