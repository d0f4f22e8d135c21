CONSTANTS NP = 2  NT = 2  NM = 2  TOTAL = 4  MAXT = 1  MAXDEPTH = 3
SPECIFICATION Spec
INVARIANTS Once StopIsTold NotEarly NotStoppedRunsFalse OwnersExist
