SPECIFICATION Spec
CONSTANTS MaxPoses = 3
INVARIANTS Joined Moves Angles OnlyOne
CHECK_DEADLOCK FALSE
