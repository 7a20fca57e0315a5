SPECIFICATION Spec
CONSTANTS PageSize = 2 MaxSet = 5 MaxOps = 2 MaxTries = 2 Backends = {"bf", "cli"} Ops = {"utxos", "submit", "params", "tip"}
INVARIANTS AllRight OneSubmission NoFileLeft Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
