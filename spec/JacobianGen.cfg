SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
