SPECIFICATION Spec
CONSTANT MAXN = 21
INVARIANTS Known EmptyPly Independent LinearIsPositive LinearIsInside ClearLinear
PROPERTY Monotone
CHECK_DEADLOCK FALSE
