CONSTANTS NS = 2 NI = 2 BODY = 1 NEST = FALSE
SPECIFICATION Spec
INVARIANTS Once AllW AnyW
