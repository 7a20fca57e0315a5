SPECIFICATION Spec
CONSTANTS
  Kinds = {"base", "ent", "rew", "ptr", "byron"}
  Nets = {0, 1}
  Hashes = {0, 1, 2, 3}
  Nums = {0, 1, 2, 3, 4, 5, 6, 7, 8}
  Vias = {"bytes", "hex", "text"}
  Damages = {}
  EveryPos = FALSE
INVARIANTS Arrives Detected SameBytes Derives Emit
CHECK_DEADLOCK FALSE
