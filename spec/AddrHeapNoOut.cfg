SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5
  MaxAddrs = 3
  CopyIn = TRUE
  CopyOut = FALSE
  CopyDerived = FALSE
INVARIANTS Stable
CHECK_DEADLOCK FALSE
