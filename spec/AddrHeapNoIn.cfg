SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5
  MaxAddrs = 3
  CopyIn = FALSE
  CopyOut = TRUE
  CopyDerived = FALSE
INVARIANTS Stable
CHECK_DEADLOCK FALSE
