SPECIFICATION Spec
INVARIANTS Safe Emit
CHECK_DEADLOCK FALSE
