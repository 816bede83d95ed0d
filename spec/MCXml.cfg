SPECIFICATION Spec
CONSTANT MaxNodes = 3
CONSTRAINT Bound
VIEW View
INVARIANTS WriteIsSource ReadBack Layout Places Unique Found
PROPERTY Undone
CHECK_DEADLOCK FALSE
