SPECIFICATION Spec
CONSTANTS B = 2
INVARIANTS Orthogonal Proper DoubleCover KeepsAxis TraceVal Homomorphic Reach
PROPERTIES ConvertKeeps
CHECK_DEADLOCK FALSE
