SPECIFICATION Spec
CONSTANTS PageSize = 2 MaxSet = 5 MaxOps = 2 MaxTries = 1 Backends = {"bf", "cli"} Ops = {"submit"}
INVARIANTS AllRight OneSubmission NoFileLeft Emit
CHECK_DEADLOCK FALSE
