SPECIFICATION Spec
CONSTANT DEPTH = 1
CHECK_DEADLOCK FALSE
INVARIANTS CanonMeans InfoNeutral
