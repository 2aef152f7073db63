SPECIFICATION Spec
CONSTANTS Designs = {"own", "published"}
 Threads = {1, 2, 3}
 Cells = 2
 Rounds = 2
INVARIANTS Answers World Tables
CHECK_DEADLOCK FALSE
