SPECIFICATION Spec
CONSTANTS
  Kinds = {"base", "ent", "rew", "ptr", "byron"}
  Nets = {0, 1}
  Hashes = {2, 5}
  Nums = {3}
  Vias = {"text"}
  Damages = {"sub", "byte", "del", "ins", "dup", "swap", "case", "label", "pad", "len"}
  EveryPos = TRUE
INVARIANTS Arrives Detected SameBytes Emit
CHECK_DEADLOCK FALSE
