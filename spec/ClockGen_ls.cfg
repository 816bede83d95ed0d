SPECIFICATION GenSpec
CONSTANTS Kind = "ls" StartNeg = 0 Trust = 100 Echo = 11 Cap = 40 Bad = 2 MaxN = 5000
CHECK_DEADLOCK FALSE
