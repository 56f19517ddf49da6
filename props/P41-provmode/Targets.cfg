SPECIFICATION Spec
CONSTANTS Ups = {1, 2, 3, 5} Stops = {1, 2, 4}
INVARIANT Patient
INVARIANT Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
