SPECIFICATION MCSpec
CONSTANTS NP = 4
  MaxOps = 2
  Caps = {0, 1, 2}
  Thread = TRUE
INVARIANTS TypeOK NoStranding InOrder Conserved NoDup
PROPERTIES Progress LinSoon
CHECK_DEADLOCK TRUE
