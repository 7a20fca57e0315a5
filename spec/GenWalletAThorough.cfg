SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Conserved Right OneEach Emit
CONSTANTS
  NPay = 1
  NCoins = 4
  MaxSel = 4
  Kinds <- TKinds
  Deltas = {0, 1, 2, 24, 256}
  PerFix <- TPerFix
  WithMeta = {TRUE, FALSE}
  To = {1, 3}
  Chg = {1, 2}
  Late = {TRUE, FALSE}
  NRecv = 0
  Skew = 0
