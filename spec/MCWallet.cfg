SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Conserved Right OneEach
CONSTANTS
  NPay = 2
  NCoins = 2
  MaxSel = 2
  Kinds <- QKinds
  Deltas = {0}
  PerFix <- QPerFix
  WithMeta = {FALSE}
  To = {1, 3}
  Chg = {2}
  Late = {FALSE, TRUE}
  NRecv = 0
  Skew = 0
