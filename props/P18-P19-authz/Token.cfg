SPECIFICATION Spec
INVARIANTS NoPolicyNoAccess NoTokenNoAccess BothDeny BrokenDeny Emit
CHECK_DEADLOCK FALSE
