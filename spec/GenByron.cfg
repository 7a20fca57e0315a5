SPECIFICATION Spec
CONSTANTS
  MaxDev = 2
  Tags = {"bytes", "text"}
INVARIANTS OnlyCanonical Same Emit
CHECK_DEADLOCK FALSE
