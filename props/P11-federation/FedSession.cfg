SPECIFICATION Spec
CONSTANTS
 Reqs = {"q1", "q2"}
 Nodes = {"n1", "n2"}
 MaxReplies = 1
VIEW View
INVARIANTS OncePerReply OnlyTargets
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
