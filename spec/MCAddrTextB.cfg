SPECIFICATION Spec
CONSTANTS
  Kinds = {"byron"}
  Nets = {0, 1}
  Hashes = {2}
  Nums = {3}
  Vias = {"text"}
  Damages = {"byte", "case", "len", "swap", "del"}
  EveryPos = FALSE
INVARIANTS Arrives Detected SameBytes Emit
CHECK_DEADLOCK FALSE
