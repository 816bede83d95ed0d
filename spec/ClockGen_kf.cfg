SPECIFICATION GenSpec
CONSTANTS Kind = "kf" StartNeg = 100 Trust = 0 Echo = 1 Cap = 40 Bad = 2 MaxN = 5000
CHECK_DEADLOCK FALSE
