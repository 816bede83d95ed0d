SPECIFICATION GenSpec
CONSTANTS NR = 3 LB = 5
CHECK_DEADLOCK FALSE
