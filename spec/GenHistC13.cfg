SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Kept Commits Grown Emit
CONSTANTS
  Alphabet = {"sign", "in", "out", "meta1", "feeq", "build", "change", "t.feeq", "t.meta2", "fee", "metamut"}
  Depth = 3
  Reads <- RFee
