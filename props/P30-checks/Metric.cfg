SPECIFICATION Spec
VIEW View
INVARIANT Kept
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
