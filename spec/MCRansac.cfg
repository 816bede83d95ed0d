SPECIFICATION Spec
INVARIANTS Reported Bounded NotStuck
CHECK_DEADLOCK FALSE
