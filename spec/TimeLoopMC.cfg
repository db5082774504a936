SPECIFICATION Spec
CONSTANTS
  MaxNt = 4
  MaxQ = 2
  MaxCf = 3
  MaxShots = 2
  MaxThreads = 2
  Passes = 1
  SWAP = "odd"
  ROUND = "up"
  PERTHREAD = TRUE
  ZEROTMP = TRUE
  LASTSHORT = TRUE
  APPEND = TRUE
INVARIANTS ForwardFields BackwardFields Stored Gradient Schedule Emit
PROPERTIES Ends
CHECK_DEADLOCK FALSE
