SPECIFICATION GenSpec
CONSTANTS NR = 4 QB = 4 TB = 1
CHECK_DEADLOCK FALSE
