SPECIFICATION Spec
INVARIANTS NoFleetWithoutRight ServersNeverRequest OwnInboxOnly OwnCollectives NoStreamAdmin Emit
CHECK_DEADLOCK FALSE
