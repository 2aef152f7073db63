SPECIFICATION Spec
INVARIANT Design
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
