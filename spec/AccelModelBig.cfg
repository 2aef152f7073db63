SPECIFICATION Spec
CONSTANTS THREADS = {1, 2, 3}
KERNELS = 2
CALLS = 1
ATOMICGET = TRUE
INVARIANT Answered
PROPERTY OffStaysOff
CHECK_DEADLOCK FALSE
