SPECIFICATION Spec
CONSTANTS
  Nodes = {"A.n1", "A.n2"}
  Emit = TRUE
VIEW View
INVARIANT OnceEach
PROPERTIES Expiry Inert
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
