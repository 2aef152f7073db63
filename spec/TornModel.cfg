SPECIFICATION Spec
CONSTANTS NS = {0, 2}
DS = {0, 3}
CHECK_DEADLOCK FALSE
INVARIANTS TornRefused SavedLoads Sized
