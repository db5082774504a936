SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  MaxLen = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
