SPECIFICATION Spec
INVARIANTS SameEitherWay Emit
CHECK_DEADLOCK FALSE
