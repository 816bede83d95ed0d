SPECIFICATION GenSpec
CONSTANTS MaxPoses = 3
CHECK_DEADLOCK FALSE
