SPECIFICATION Spec
CONSTANTS CARELESS = FALSE MAX = 4
INVARIANT Flows
CHECK_DEADLOCK FALSE
