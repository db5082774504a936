SPECIFICATION Spec
CONSTANTS
  MaxN = 7
  MaxR = 3
INVARIANTS Interpolates RoundTrip Constant NoAlias
CHECK_DEADLOCK FALSE
