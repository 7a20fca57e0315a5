SPECIFICATION Spec
CONSTANTS
  Masters = {0, 1, 2, 3, 4, 5, 6}
  Steps = {0, 1, 2, 3, 4, 5, 6, 7}
  MaxDepth = 3
  Signing = TRUE
INVARIANTS Agree Clamped Signs Moves Emit
CHECK_DEADLOCK FALSE
