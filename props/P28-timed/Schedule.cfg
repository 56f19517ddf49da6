CONSTANT MaxT = 8
SPECIFICATION Spec
VIEW View
PROPERTIES Sound OncePerChange SkipOnce
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
