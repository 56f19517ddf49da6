SPECIFICATION Spec
CONSTANTS
  Members = {"m1", "m2"}
  Timely = FALSE
  Restarts = 0
  Emit = TRUE
VIEW View
INVARIANTS OneLeader Backed OneHolder
PROPERTIES Announced Told AfterRenewal
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
