SPECIFICATION Spec
CONSTANTS NH = 3 NV = 2 NT = 2
INVARIANTS TypeOK NoDangling NoLeak InvalidIff SharedSee
PROPERTIES CloneIndependent TimeIsPerHandle
CHECK_DEADLOCK FALSE
