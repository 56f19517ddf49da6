SPECIFICATION Spec
INVARIANTS OnlyTrusted OnlyReadable OnlyCurrent PrivilegedNamed OwnName CompatSame Emit
CHECK_DEADLOCK FALSE
