SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Agree
CONSTANTS
  Caller = TRUE
  MaxArr = 9
  MaxSl = 4
  MaxSteps = 6
  CopyKeys = TRUE
  CopyBuild = TRUE
  CopyTemp = TRUE
