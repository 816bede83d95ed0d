SPECIFICATION Spec
PROPERTIES Walks
CHECK_DEADLOCK FALSE
