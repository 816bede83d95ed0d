SPECIFICATION Spec
INVARIANTS Epipolar Rank2 Determined Triangulated FlipsRows
CHECK_DEADLOCK FALSE
