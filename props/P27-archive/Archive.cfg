SPECIFICATION Spec
VIEW View
PROPERTIES OnlyVerified Restored
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
