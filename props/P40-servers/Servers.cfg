SPECIFICATION Spec
CONSTANTS Part = "middleware"
INVARIANT DnsOnlyWhenEnabled
INVARIANT ConfiguredWins
INVARIANT AlwaysSomewhere
INVARIANT FederationNeverLeaks
INVARIANT OneSource
INVARIANT Schemes
INVARIANT Emit
CHECK_DEADLOCK FALSE
