SPECIFICATION TSpec
CONSTANTS NR = 6 LB = 6
INVARIANTS TValid Flow Predicts Agree
CHECK_DEADLOCK FALSE
