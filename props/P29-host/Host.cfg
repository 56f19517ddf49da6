SPECIFICATION Spec
VIEW View
INVARIANT Agree
PROPERTY Kept
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
