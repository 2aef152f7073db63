SPECIFICATION Spec
CONSTANTS
  UMAX = 3
  NMAX = 4
  M = 3
  RUNLEN = 2
INVARIANTS Encodable HalfStep Extremes Monotone Stable
CHECK_DEADLOCK FALSE
