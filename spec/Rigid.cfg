SPECIFICATION Spec
CONSTANTS NR = 1 QB = 2 TB = 1
INVARIANTS Group Action Isometry
CHECK_DEADLOCK FALSE
