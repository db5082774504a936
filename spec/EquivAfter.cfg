SPECIFICATION Spec
CONSTANTS
  Moves = {"after"}
  Backs <- Several
  First = ""
  Rare = 3
  Depth = 8
INVARIANTS Kept Legal Emit
CHECK_DEADLOCK FALSE
