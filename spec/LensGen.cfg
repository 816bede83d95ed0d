SPECIFICATION GenSpec
CONSTANTS
  C = 100
  D = 4
CHECK_DEADLOCK FALSE
