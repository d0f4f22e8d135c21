CONSTANTS NP = 2 NK = 2 KINDS = {"-", "ec"} NVS = {0, 2}
SPECIFICATION MCSpec
INVARIANTS TypeOK NotBefore Once Faithful
PROPERTIES Resumed
