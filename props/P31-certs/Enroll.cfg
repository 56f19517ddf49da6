SPECIFICATION Spec
VIEW V
INVARIANT Requested
PROPERTIES KeyStays FromCA Complete
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
