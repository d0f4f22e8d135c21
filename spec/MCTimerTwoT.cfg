CONSTANTS NP = 2  NT = 3  NM = 2  TOTAL = 5  MAXT = 1  MAXDEPTH = 3
SPECIFICATION Spec
INVARIANTS Once StopIsTold NotEarly NotStoppedRunsFalse OwnersExist
