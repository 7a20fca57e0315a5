SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Conserved Right OneEach Emit
CONSTANTS
  NPay = 2
  NCoins = 1
  MaxSel = 2
  Kinds <- QKinds
  Deltas = {0, 1}
  PerFix <- OnePerFix
  WithMeta = {FALSE}
  To = {1, 3}
  Chg = {2}
  Late = {FALSE, TRUE}
  NRecv = 2
  Skew = 0
