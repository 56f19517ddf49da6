SPECIFICATION Spec
CONSTANT Part = "tokens"
INVARIANTS NoEvidenceNoEntry SystemOnlyByPassword ProvisioningIsolated UnprovisionedNotInChoria ClearTextRefused Emit
CHECK_DEADLOCK FALSE
