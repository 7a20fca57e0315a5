SPECIFICATION Spec
CONSTANTS
  Kinds = {"base", "ent", "rew", "ptr", "byron"}
  Nets = {0, 1}
  Hashes = {2}
  Nums = {3}
  Vias = {"bytes", "hex"}
  Damages = {"head", "len", "bit", "byte", "swap", "del"}
  EveryPos = FALSE
INVARIANTS Arrives Detected SameBytes Emit
CHECK_DEADLOCK FALSE
