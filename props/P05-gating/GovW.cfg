SPECIFICATION Spec
CONSTANT Depth = 5
VIEW View
INVARIANT Held
PROPERTIES Starts NoEvent
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
