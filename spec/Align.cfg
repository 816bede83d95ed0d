SPECIFICATION Spec
CONSTANTS MaxPts = 4
INVARIANTS Optimal
CHECK_DEADLOCK FALSE
