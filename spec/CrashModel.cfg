SPECIFICATION Spec
CONSTANTS HONEST = TRUE
 HEAD = 7
 BODY = 11
INVARIANTS NeverGarbage Finished KeepsOld
CHECK_DEADLOCK FALSE
