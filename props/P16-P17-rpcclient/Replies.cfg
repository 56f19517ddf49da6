SPECIFICATION Spec
CONSTANTS
  MaxNodes = 2
  MaxDeliver = 3
  Emit = TRUE
INVARIANTS Accounting EmitDone
PROPERTY Ends
CHECK_DEADLOCK FALSE
