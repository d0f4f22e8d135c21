SPECIFICATION MCSpec
CONSTANTS NP = 2
  NS = 3
  NL = 2
  NK = 2
  MaxOps = 11
INVARIANTS TypeOK Exists TasksSafe FirstWins OwnedLive
PROPERTIES Mine
CHECK_DEADLOCK FALSE
