SPECIFICATION Spec
CONSTANTS Kind = "ls" StartNeg = 0 Trust = 100 Echo = 11 Cap = 40 Bad = 2 MaxN = 400
INVARIANTS TypeOK
PROPERTIES Followed Undisturbed
CHECK_DEADLOCK FALSE
