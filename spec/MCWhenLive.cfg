CONSTANTS NS = 2 NI = 2 BODY = 0 NEST = FALSE
SPECIFICATION FairSpec
INVARIANTS Once AllW AnyW
PROPERTY Ends
