SPECIFICATION Spec
CONSTANT Depth = 3
VIEW View
PROPERTIES Quiet OnChange
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
