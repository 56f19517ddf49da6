SPECIFICATION Spec
INVARIANT NeverWeaker
INVARIANT Verified
INVARIANT NoBadToken
INVARIANT NoSecretsInTheClear
INVARIANT Emit
CHECK_DEADLOCK FALSE
