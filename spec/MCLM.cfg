SPECIFICATION Spec
INVARIANTS Least Belongs NoNan Damping Counts
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
