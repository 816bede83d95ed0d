SPECIFICATION TSpec
INVARIANTS AllAccepted
CHECK_DEADLOCK FALSE
