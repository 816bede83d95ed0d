CONSTANTS MaxLen = 6 MaxIno = 7
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS EndOfSent Enough NoMore Small Backups OneName
