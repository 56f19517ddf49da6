SPECIFICATION Spec
CONSTANTS
  Workers = {"w1", "w2", "w3"}
  Stay = {"w3"}
  Emit = TRUE
VIEW View
INVARIANTS NoIdleSlot NoStarving
PROPERTIES Admission Honest
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
