SPECIFICATION Spec
CONSTANT Depth = 5
VIEW View
PROPERTIES Converged Idempotent Quiet
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
