CONSTANTS NS = 2 NI = 3 BODY = 1 NEST = FALSE
SPECIFICATION Spec
INVARIANTS Once AllW AnyW
