SPECIFICATION Spec
VIEW View
INVARIANT NoneOutside
PROPERTIES FiresOnlyInside OncePerStay
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
