SPECIFICATION Spec
CONSTANTS PageSize = 2 MaxSet = 5 MaxOps = 1 MaxTries = 1 Backends = {"bf", "cli"} Ops = {"params", "tip"}
INVARIANTS AllRight OneSubmission NoFileLeft Emit
CHECK_DEADLOCK FALSE
