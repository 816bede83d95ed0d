SPECIFICATION GenSpec
CONSTANTS NH = 5 NV = 4 NT = 8
CHECK_DEADLOCK FALSE
