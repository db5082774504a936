SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  Nt = 2
  MaxGen = 2
  Modes = {"device", "disk", "none"}
  Shared = FALSE
INVARIANTS NeverMixed CleansUp
CHECK_DEADLOCK FALSE
