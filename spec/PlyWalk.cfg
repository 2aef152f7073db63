SPECIFICATION WalkSpec
CONSTANT DEPTH = 3
CONSTRAINT EmitWalk
CHECK_DEADLOCK FALSE
