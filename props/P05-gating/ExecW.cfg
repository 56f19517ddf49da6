SPECIFICATION Spec
CONSTANT Depth = 2
VIEW View
PROPERTIES Quiet OneEvent
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
