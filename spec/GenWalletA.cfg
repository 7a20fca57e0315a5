SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Conserved Right OneEach Emit
CONSTANTS
  NPay = 1
  NCoins = 3
  MaxSel = 3
  Kinds <- QKinds
  Deltas = {0, 1}
  PerFix <- QPerFix
  WithMeta = {TRUE, FALSE}
  To = {3}
  Chg = {2}
  Late = {FALSE}
  NRecv = 0
  Skew = 0
