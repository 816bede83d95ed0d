INIT Init
NEXT Next
CONSTANTS N = 2 MaxCost = 2
INVARIANTS Certified Optimal
CHECK_DEADLOCK FALSE
