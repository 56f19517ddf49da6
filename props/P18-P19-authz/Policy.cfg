SPECIFICATION Spec
CONSTANT Long = FALSE
INVARIANTS Granted FirstWins Emit
PROPERTY Decides
CHECK_DEADLOCK FALSE
