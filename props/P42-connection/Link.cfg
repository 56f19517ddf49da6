SPECIFICATION Spec
CONSTANTS MaxFails = 2 MaxDrops = 2 MaxOps = 5
PROPERTY KeepsTrying
PROPERTY NothingLost
PROPERTY ClosedForGood
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
