SPECIFICATION Spec
INVARIANTS NothingWithoutTrust NothingAltered ServersNeverCall NoImpersonation SignedNeedsDelegate FleetOnly Emit
CHECK_DEADLOCK FALSE
