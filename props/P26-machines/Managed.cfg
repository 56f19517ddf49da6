SPECIFICATION Spec
CONSTANT Few = FALSE
VIEW View
PROPERTIES Guarded Idempotent Purged Kept
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
