SPECIFICATION Spec
CONSTANTS NR = 1 LB = 5
INVARIANTS Valid Consistent Shrinks Commute Optimal
CHECK_DEADLOCK FALSE
