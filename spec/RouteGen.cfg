SPECIFICATION Spec
CONSTANT DEPTH = 5
CHECK_DEADLOCK FALSE
INVARIANTS OneFile NamesTell
