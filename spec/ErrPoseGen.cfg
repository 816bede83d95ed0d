SPECIFICATION GenSpec
CONSTANTS NR = 4
CHECK_DEADLOCK FALSE
