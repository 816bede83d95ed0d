SPECIFICATION GenSpec
CONSTANTS MaxPoses = 4
CHECK_DEADLOCK FALSE
