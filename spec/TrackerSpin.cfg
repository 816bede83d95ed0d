SPECIFICATION Spec
INVARIANTS Circle Fixed
PROPERTIES NoJump
CHECK_DEADLOCK FALSE
