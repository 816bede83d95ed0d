SPECIFICATION Spec
CONSTANT B = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
