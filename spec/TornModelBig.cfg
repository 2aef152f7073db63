SPECIFICATION Spec
CONSTANTS NS = {0, 1, 2, 5}
DS = {0, 1, 2, 3}
CHECK_DEADLOCK FALSE
INVARIANTS TornRefused SavedLoads Sized
