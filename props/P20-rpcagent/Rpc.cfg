SPECIFICATION Spec
INVARIANTS Once OnlyAllowed AuditFirst NoReplyBefore Emit
PROPERTY Answered
CHECK_DEADLOCK FALSE
