SPECIFICATION Spec
CONSTANT Long = FALSE
INVARIANTS Consistent Emit
CHECK_DEADLOCK FALSE
