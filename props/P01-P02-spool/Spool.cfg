SPECIFICATION Spec
CONSTANTS
  Msgs = {"r1","r2","r3","u1","u2"}
  Limit = 10
  WithStuck = FALSE
  MaxScans = 4
  Emit = FALSE
VIEW StateView
INVARIANTS ReliableKept TriesBound UnreliableOnce Bounded
PROPERTIES RemovedForAReason ScanOrder
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
