SPECIFICATION Spec
CONSTANTS
  NDecoys = 8
  Kinds = {"order", "cut", "char", "bad"}
INVARIANTS NoMatter Cut Wrong Emit
CHECK_DEADLOCK FALSE
