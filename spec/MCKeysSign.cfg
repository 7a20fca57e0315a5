SPECIFICATION Spec
CONSTANTS
  Masters = {0, 1, 2, 3, 4, 5, 6}
  Steps = {0, 1, 2, 3, 5, 6}
  MaxDepth = 1
  Signing = TRUE
INVARIANTS Agree Clamped Signs Moves Emit
CHECK_DEADLOCK FALSE
