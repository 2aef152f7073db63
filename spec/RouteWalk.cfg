SPECIFICATION WalkSpec
CONSTANT DEPTH = 5
CHECK_DEADLOCK FALSE
CONSTRAINT EmitWalk
