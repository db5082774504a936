SPECIFICATION Spec
CONSTANTS
  MaxN = 12
  MaxR = 5
INVARIANTS Interpolates RoundTrip Constant NoAlias
CHECK_DEADLOCK FALSE
