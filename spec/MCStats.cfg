SPECIFICATION Spec
CONSTANTS
  B = 2
  N = 3
INVARIANT Inv
PROPERTY Descends
CHECK_DEADLOCK FALSE
