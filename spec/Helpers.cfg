SPECIFICATION Spec
CONSTANTS
  Depth = 3
INVARIANTS BaseIsConsistent Emit
CHECK_DEADLOCK FALSE
