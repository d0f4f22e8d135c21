CONSTANTS NS = 1 NI = 1 BODY = 1 NEST = TRUE
SPECIFICATION Spec
INVARIANTS Once AllW AnyW
