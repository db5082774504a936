SPECIFICATION Spec
CONSTANTS
  Moves = {"groups", "sources", "receivers", "pieces", "axes", "mirror", "scale", "mass", "form", "layout", "locs", "spacing",
           "width", "given", "region", "threads", "storage", "compress", "noted", "parts", "delay", "zeros", "call", "ambient", "after"}
  Backs <- Several
  First = ""
  Rare = 5
  Depth = 8
INVARIANTS Kept Legal Emit
CHECK_DEADLOCK FALSE
