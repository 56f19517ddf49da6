SPECIFICATION Spec
CONSTANTS
 MaxReplies = 2
 Vs = {"nodata", "array", "gone", "a", "yes", "one", "half", "nan", "null"}
INVARIANTS ShownOnce Conserved DefaultsCount NamesOk Emit
CHECK_DEADLOCK FALSE
