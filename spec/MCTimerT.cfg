CONSTANTS NP = 2  NT = 3  NM = 1  TOTAL = 5  MAXT = 1  MAXDEPTH = 4
SPECIFICATION Spec
INVARIANTS Once StopIsTold NotEarly NotStoppedRunsFalse OwnersExist
