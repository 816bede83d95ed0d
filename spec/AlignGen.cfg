SPECIFICATION GenSpec
CONSTANTS MaxPts = 4
CHECK_DEADLOCK FALSE
