SPECIFICATION Spec
CONSTANTS
  Alphabet = {0, 1, 127, 128, 129, 255}
  MaxBytes = 5
INVARIANTS Inverts Stops Shortest Unterminated Emit
CHECK_DEADLOCK FALSE
