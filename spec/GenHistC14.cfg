SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Kept Commits Grown Emit
CONSTANTS
  Alphabet = {"meta1", "meta2", "delmeta", "metamut", "aux", "hash", "bytes", "build", "sign", "feeq", "t.meta2", "t.delmeta"}
  Depth = 3
  Reads <- RHash
