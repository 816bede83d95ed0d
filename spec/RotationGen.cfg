SPECIFICATION GenSpec
CONSTANTS B = 2
CHECK_DEADLOCK FALSE
