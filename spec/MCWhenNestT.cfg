CONSTANTS NS = 2 NI = 2 BODY = 1 NEST = TRUE
SPECIFICATION Spec
INVARIANTS Once AllW AnyW
