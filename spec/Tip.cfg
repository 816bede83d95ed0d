SPECIFICATION Spec
CONSTANTS MaxPoses = 4
INVARIANTS Stationary Unique
CHECK_DEADLOCK FALSE
