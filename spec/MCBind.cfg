SPECIFICATION MCSpec
CONSTANTS NP = 2
  NS = 3
  NL = 2
  NK = 1
  MaxOps = 8
INVARIANTS TypeOK Exists TasksSafe FirstWins OwnedLive
PROPERTIES Mine
CHECK_DEADLOCK FALSE
