SPECIFICATION Spec
INVARIANTS InTime Emit
CHECK_DEADLOCK FALSE
