SPECIFICATION Spec
CONSTANTS
 Mode = "repub"
 Vals = {"a", "b"}
 MaxRev = 3
VIEW View
PROPERTIES Mirrors FiresOnChange FailKeeps Silent
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
