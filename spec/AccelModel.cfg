SPECIFICATION Spec
CONSTANTS THREADS = {1, 2}
KERNELS = 2
CALLS = 2
ATOMICGET = TRUE
INVARIANT Answered
PROPERTIES OffStaysOff AllEnd
CHECK_DEADLOCK FALSE
