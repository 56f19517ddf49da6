SPECIFICATION Spec
CONSTANTS Part = "filters" MaxItems = 2
INVARIANTS Agree OwnCollective MoreConditionsFewerNodes Emit
