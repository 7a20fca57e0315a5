SPECIFICATION Spec
CONSTANTS
  MaxDev = 3
  Tags = {"bytes", "text"}
INVARIANTS OnlyCanonical Same Emit
CHECK_DEADLOCK FALSE
