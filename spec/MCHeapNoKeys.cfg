SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Agree
CONSTANTS
  Caller = TRUE
  MaxArr = 9
  MaxSl = 4
  MaxSteps = 7
  CopyKeys = FALSE
  CopyBuild = TRUE
  CopyTemp = TRUE
