SPECIFICATION Spec
INVARIANTS Strict Emit
CHECK_DEADLOCK FALSE
