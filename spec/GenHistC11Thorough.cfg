SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Kept Commits Grown Emit
CONSTANTS
  Alphabet = {"sign", "in", "out", "fee", "meta1", "change", "minfee", "build", "metamut", "ttl"}
  Depth = 4
  Reads <- RBytesOnly
