SPECIFICATION Spec
PROPERTIES Settles
CHECK_DEADLOCK FALSE
