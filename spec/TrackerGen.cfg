SPECIFICATION GenSpec
CONSTANTS NR = 6 LB = 6
CHECK_DEADLOCK FALSE
