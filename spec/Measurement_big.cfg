SPECIFICATION Spec
CONSTANTS NH = 4 NV = 2 NT = 3
INVARIANTS TypeOK NoDangling NoLeak InvalidIff SharedSee
PROPERTIES CloneIndependent TimeIsPerHandle
CHECK_DEADLOCK FALSE
