SPECIFICATION DomSpec
CHECK_DEADLOCK FALSE
