SPECIFICATION WalkSpec
INVARIANT Design
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
