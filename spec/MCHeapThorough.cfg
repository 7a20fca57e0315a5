SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Agree
CONSTANTS
  Caller = TRUE
  MaxArr = 14
  MaxSl = 5
  MaxSteps = 8
  CopyKeys = TRUE
  CopyBuild = TRUE
  CopyTemp = TRUE
