CONSTANTS NP = 2  NT = 2  NM = 1  TOTAL = 4  MAXT = 1  MAXDEPTH = 3
SPECIFICATION FairSpec
PROPERTY AllCalled
