SPECIFICATION Spec
CONSTANTS
  Moves = {"backend", "precision", "after"}
  Backs <- Reference
  First = ""
  Rare = 5
  Depth = 4
INVARIANTS Kept Legal Emit
CHECK_DEADLOCK FALSE
