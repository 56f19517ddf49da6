SPECIFICATION Spec
INVARIANTS OnlyVerified OnlyMatching OnlyInTime OnlyOnce NoReplyUnlessRun DroppedSilently Accounted Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
