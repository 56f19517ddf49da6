SPECIFICATION Spec
INVARIANT NeverOnClients
INVARIANT ConfiguredNo
INVARIANT ProductionUntouched
INVARIANT InvalidTokenSaysNothing
INVARIANT Destination
INVARIANT Emit
CHECK_DEADLOCK FALSE
