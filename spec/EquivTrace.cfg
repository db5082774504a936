SPECIFICATION TSpec
CONSTANTS
  Moves = {}
  Backs <- Several
  First = ""
  Rare = 5
  Depth = 0
CHECK_DEADLOCK FALSE
