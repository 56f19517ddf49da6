SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Vals = {"str", "num", "map"}
  Emit = TRUE
VIEW View
INVARIANT Durable
PROPERTIES Isolated SnapStable
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
