SPECIFICATION Spec
CONSTANT Long = FALSE
INVARIANTS RoundTrip Emit
CHECK_DEADLOCK FALSE
