SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Kept Commits Grown Emit
CONSTANTS
  Alphabet = {"sign", "out", "in", "minfee", "build", "meta1", "change", "hash", "t.out", "t.meta2", "feeq", "bytes"}
  Depth = 4
  Reads <- RBytesOnly
