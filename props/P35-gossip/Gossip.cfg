SPECIFICATION Spec
VIEW View
INVARIANT AlwaysInside
PROPERTIES OnlyInside NeverOutside AtMostOne
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
