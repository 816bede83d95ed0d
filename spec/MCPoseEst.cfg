SPECIFICATION Spec
INVARIANTS Determined DTrans DRot Undo Symmetric Zeros Composed
CHECK_DEADLOCK FALSE
