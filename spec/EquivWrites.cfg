SPECIFICATION Spec
CONSTANTS
  Moves = {"writes", "groups", "form", "threads", "storage", "width", "region", "axes", "noted", "precision"}
  Backs <- Reference
  First = "writes"
  Rare = 3
  Depth = 4
INVARIANTS Kept Legal Emit
CHECK_DEADLOCK FALSE
