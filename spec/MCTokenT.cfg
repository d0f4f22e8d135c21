CONSTANTS NP = 2 NK = 3 KINDS = {"ec"} NVS = {1}
SPECIFICATION MCSpec
INVARIANTS TypeOK NotBefore Once Faithful
PROPERTIES Resumed
