SPECIFICATION Spec
CONSTANTS
  Parts = {"mul"}
  NF = 25
  NP = 11
  NS = 9
INVARIANTS FieldLaws PointLaws MulLaws ScalarLaws Emit
CHECK_DEADLOCK FALSE
