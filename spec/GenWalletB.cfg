SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Conserved Right OneEach Emit
CONSTANTS
  NPay = 2
  NCoins = 2
  MaxSel = 2
  Kinds <- QKinds
  Deltas = {0}
  PerFix <- OnePerFix
  WithMeta = {FALSE}
  To = {1}
  Chg = {1}
  Late = {FALSE}
  NRecv = 0
  Skew = 0
