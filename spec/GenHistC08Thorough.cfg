SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Kept Commits Grown Emit
CONSTANTS
  Alphabet = {"in", "out", "ttl", "fee", "meta1", "delmeta", "bytes", "build", "t.out", "t.fee", "sign"}
  Depth = 4
  Reads <- RHex
