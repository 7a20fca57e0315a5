SPECIFICATION Spec
CONSTANTS
  Alphabet = {0, 1, 2, 126, 127, 128, 129, 255}
  MaxBytes = 6
INVARIANTS Inverts Stops Shortest Unterminated Emit
CHECK_DEADLOCK FALSE
