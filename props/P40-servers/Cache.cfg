SPECIFICATION Spec
CONSTANTS Term = 3 MaxTime = 7 Names = {"a", "b"}
PROPERTY Bounded
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
