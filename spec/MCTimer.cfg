CONSTANTS NP = 2  NT = 2  NM = 1  TOTAL = 4  MAXT = 1  MAXDEPTH = 4
SPECIFICATION Spec
INVARIANTS Once StopIsTold NotEarly NotStoppedRunsFalse OwnersExist
