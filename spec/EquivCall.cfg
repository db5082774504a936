SPECIFICATION Spec
CONSTANTS
  Moves = {"call", "region", "given", "noted", "backend", "storage", "compress", "zeros", "ambient", "after"}
  Backs <- Reference
  First = "call"
  Rare = 2
  Depth = 6
INVARIANTS Kept Legal Emit
CHECK_DEADLOCK FALSE
