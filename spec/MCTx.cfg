SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Conserved Covered MinFeeRight PaysForBytes Signed SizeRight SplitRight
CONSTANTS
  NKeys = 2
  NIns = 1
  NOuts = 1
  Pars <- QPars
  Deltas = {0, 1}
  MdLens = {0, 30}
  Ttls <- QTtls
  AddrLens = {57}
