SPECIFICATION Spec
CONSTANTS
  Alphabet = {127, 128, 255}
  MaxBytes = 10
INVARIANTS Inverts Stops Shortest Unterminated Emit
CHECK_DEADLOCK FALSE
