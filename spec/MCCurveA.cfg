SPECIFICATION Spec
CONSTANTS
  Parts = {"field", "point", "scalar"}
  NF = 25
  NP = 11
  NS = 19
INVARIANTS FieldLaws PointLaws MulLaws ScalarLaws Emit
CHECK_DEADLOCK FALSE
