SPECIFICATION Spec
CONSTANTS MaxGen = 3
 MaxPend = 2
 Kinds = {"plain", "quick", "service", "idle", "zero", "anon"}
VIEW View
INVARIANTS OnlyAllowed HandledByKnown
PROPERTIES OneEach NeverChanges
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
