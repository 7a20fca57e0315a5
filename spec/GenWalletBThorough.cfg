SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Conserved Right OneEach Emit
CONSTANTS
  NPay = 2
  NCoins = 3
  MaxSel = 2
  Kinds <- QKinds
  Deltas = {0, 1}
  PerFix <- OnePerFix
  WithMeta = {FALSE}
  To = {1, 3}
  Chg = {1}
  Late = {TRUE, FALSE}
  NRecv = 1
  Skew = 0
