SPECIFICATION Spec
CONSTANTS
  Kinds = {"base", "ent", "rew", "ptr", "byron"}
  Nets = {0, 1}
  Hashes = {0, 1, 2}
  Nums = {0, 3, 8}
  Vias = {"bytes", "hex", "text"}
  Damages = {}
  EveryPos = FALSE
INVARIANTS Arrives Detected SameBytes Derives Emit
CHECK_DEADLOCK FALSE
