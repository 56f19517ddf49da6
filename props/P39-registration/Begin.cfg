SPECIFICATION Spec
INVARIANT OnlyNamed
INVARIANT Emit
CHECK_DEADLOCK FALSE
