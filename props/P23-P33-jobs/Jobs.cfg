SPECIFICATION Spec
CONSTANTS
  MaxChunks = 2
  Emit = TRUE
INVARIANTS Once Complete Order EmitDone
CHECK_DEADLOCK FALSE
