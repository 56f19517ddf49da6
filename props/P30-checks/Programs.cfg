SPECIFICATION Spec
INVARIANT Partition
INVARIANT Emit
CHECK_DEADLOCK FALSE
