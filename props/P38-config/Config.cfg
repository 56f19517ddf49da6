CONSTANTS Part = "values" Deep = FALSE
SPECIFICATION Spec
INVARIANT AnonSigned
INVARIANT Reasons
INVARIANT LastLine
INVARIANT Emit

PROPERTY Ends
CHECK_DEADLOCK FALSE
