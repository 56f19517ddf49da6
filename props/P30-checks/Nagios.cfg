SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
INVARIANT Agree
INVARIANT NotOK
PROPERTY Grows
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
