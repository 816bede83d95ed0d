SPECIFICATION Spec
CONSTANTS N = 3 MaxCost = 2
INVARIANTS Independent Reduced StarsZero Optimal
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
