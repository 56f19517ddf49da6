SPECIFICATION Spec
CONSTANT Long = FALSE
INVARIANTS NoUnsafe DefaultsKeep Emit
CHECK_DEADLOCK FALSE
