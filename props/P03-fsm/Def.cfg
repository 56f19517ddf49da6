SPECIFICATION Spec
INVARIANTS Closed Emit
CHECK_DEADLOCK FALSE
