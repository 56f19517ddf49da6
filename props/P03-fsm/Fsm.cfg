SPECIFICATION Spec
CONSTANTS
  Third = FALSE
  Depth = 3
  Emit = TRUE
VIEW View
INVARIANT OnlyKnown
PROPERTIES Declared Chain
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
