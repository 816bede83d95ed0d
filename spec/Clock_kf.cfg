SPECIFICATION Spec
CONSTANTS Kind = "kf" StartNeg = 100 Trust = 0 Echo = 1 Cap = 40 Bad = 2 MaxN = 400
INVARIANTS TypeOK
PROPERTIES Followed Undisturbed
CHECK_DEADLOCK FALSE
