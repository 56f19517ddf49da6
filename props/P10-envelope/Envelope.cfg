SPECIFICATION Spec
INVARIANTS Authentic Delivered NotConfused Emit
CHECK_DEADLOCK FALSE
