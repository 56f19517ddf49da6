SPECIFICATION Spec
VIEW V
INVARIANT OnlyUsable
PROPERTIES Gone KeepsRunning
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
