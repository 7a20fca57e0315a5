SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5
  MaxAddrs = 3
  CopyIn = TRUE
  CopyOut = TRUE
  CopyDerived = FALSE
INVARIANTS Stable Emit
CHECK_DEADLOCK FALSE
