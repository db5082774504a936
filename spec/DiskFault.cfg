SPECIFICATION Spec
CONSTANTS
  Files = {1, 2}
  Nt = 5
  Chunk = 3
  BufLen = 2
  Appending = TRUE
  Cap = 5
  MaxFaults = 2
  CheckOpen = TRUE
  CheckWrite = TRUE
  CheckClose = TRUE
  CheckRead = TRUE
INVARIANTS NeverWrong Quiet
PROPERTY Ends
CHECK_DEADLOCK FALSE
