SPECIFICATION TSpec
CONSTANTS
  Slots = {1, 2, 3}
  MaxLen = 14
CHECK_DEADLOCK FALSE
