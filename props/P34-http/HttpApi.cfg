SPECIFICATION Spec
CONSTANT Full = FALSE
VIEW View
INVARIANT Agree
PROPERTIES Locked Apart Stale
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
