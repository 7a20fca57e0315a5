SPECIFICATION HSpec
CHECK_DEADLOCK FALSE
INVARIANT Emit
CONSTANTS
  MaxArr = 14
  MaxSl = 6
  MaxSteps = 14
  Caller = FALSE
  CopyKeys = FALSE
  CopyBuild = FALSE
  CopyTemp = FALSE
