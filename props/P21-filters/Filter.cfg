SPECIFICATION Spec
CONSTANT Long = FALSE
INVARIANTS EmptySelectsAll Narrower Emit
CHECK_DEADLOCK FALSE
