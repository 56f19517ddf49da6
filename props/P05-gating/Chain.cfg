SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS OneEach Emit
CHECK_DEADLOCK FALSE
