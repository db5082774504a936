SPECIFICATION Spec
CONSTANTS
  MaxNt = 6
  MaxQ = 3
  MaxCf = 4
  MaxShots = 3
  MaxThreads = 2
  Passes = 2
  SWAP = "odd"
  ROUND = "up"
  PERTHREAD = TRUE
  ZEROTMP = TRUE
  LASTSHORT = TRUE
  APPEND = TRUE
INVARIANTS ForwardFields BackwardFields Stored Gradient Schedule Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
