SPECIFICATION Spec
INVARIANTS OnlyValid Once OkTold Emit
PROPERTY Answered
CHECK_DEADLOCK FALSE
