SPECIFICATION TrSpec
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
