SPECIFICATION Spec
CONSTANTS
 Callers = {"A", "B"}
 Wide = FALSE
VIEW View
PROPERTIES Guard OnlyAccepted
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
