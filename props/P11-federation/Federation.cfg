SPECIFICATION Spec
CONSTANTS
 Msgs = {m1, m2}
 Brokers = {"b1", "b2"}
 Nodes = {"n1", "n2"}
 None = "none"
INVARIANTS AtMostOnce OnlyAddressed Complete DroppedMeansBad
PROPERTY AllHandled
CHECK_DEADLOCK FALSE
