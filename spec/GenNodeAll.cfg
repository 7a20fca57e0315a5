SPECIFICATION Spec
CONSTANTS PageSize = 2 MaxSet = 3 MaxOps = 1 MaxTries = 1 Backends = {"bf", "cli"} Ops = {"utxos", "submit", "params", "tip"}
INVARIANTS AllRight OneSubmission NoFileLeft Emit
CHECK_DEADLOCK FALSE
