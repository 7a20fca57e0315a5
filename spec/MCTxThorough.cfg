SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Conserved Covered MinFeeRight PaysForBytes Signed SizeRight SplitRight
CONSTANTS
  NKeys = 3
  NIns = 2
  NOuts = 2
  Pars <- QPars
  Deltas = {0, 1, 2, 3, 5, 8}
  MdLens = {0, 30, 200}
  Ttls <- QTtls
  AddrLens = {29, 33, 57}
