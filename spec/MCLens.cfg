SPECIFICATION Spec
CONSTANTS
  C = 40
  D = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
