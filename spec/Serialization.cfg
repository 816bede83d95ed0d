SPECIFICATION Spec
CONSTANTS NS = 2 NV = 1 NT = 1 MaxMsgs = 2
Types = {"V3", "M34"}
Formats = {"msgpack", "text"}
INVARIANTS TypeOK Fifo
PROPERTIES Exactly
CHECK_DEADLOCK FALSE
