SPECIFICATION Spec
CONSTANT MaxIn = 2
INVARIANTS Held Restored InUse Order
CHECK_DEADLOCK FALSE
