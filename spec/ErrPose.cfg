SPECIFICATION Spec
CONSTANTS NR = 1
INVARIANTS Laws Symmetric AddRound
CHECK_DEADLOCK FALSE
