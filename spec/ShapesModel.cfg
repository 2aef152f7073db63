SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS CHECKED = TRUE N = 6
INVARIANTS NoForeign Whole RefusedClean Total
