SPECIFICATION Spec
CONSTANTS
  Cs = {1, 4, 5}
  Ps = {300, 700, 800}
INVARIANT Inv
CHECK_DEADLOCK FALSE
