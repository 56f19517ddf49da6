SPECIFICATION Spec
CONSTANTS MaxMsgs = 4
VIEW View
INVARIANTS Bounded InOrder
PROPERTIES OnlyOverload OnlyMine
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
