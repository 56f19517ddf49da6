CONSTANT Part = "file"
SPECIFICATION Spec
VIEW View
PROPERTIES NeverStarved NotFlooded SilentWhenStopped OnlyNewer
ACTION_CONSTRAINT EmitRow
CHECK_DEADLOCK FALSE
