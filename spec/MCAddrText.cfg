SPECIFICATION Spec
CONSTANTS
  Kinds = {"base", "ent", "rew", "ptr"}
  Nets = {0, 1}
  Hashes = {2}
  Nums = {3}
  Vias = {"text"}
  Damages = {"sub", "byte", "del", "ins", "dup", "swap", "case", "label", "pad", "len"}
  EveryPos = FALSE
INVARIANTS Arrives Detected SameBytes Emit
CHECK_DEADLOCK FALSE
