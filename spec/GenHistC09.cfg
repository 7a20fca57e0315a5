SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Kept Commits Grown Emit
CONSTANTS
  Alphabet = {"in", "ttl", "meta1", "meta2", "delmeta", "metamut", "hash", "bytes", "build", "t.meta2", "t.hash", "t.fee", "aux"}
  Depth = 3
  Reads <- RHash
