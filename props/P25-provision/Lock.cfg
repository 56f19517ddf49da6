SPECIFICATION Spec
CONSTANTS
 Callers = {"A", "B", "C"}
 W = 3
 MaxTime = 7
PROPERTIES OneAtATime
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
