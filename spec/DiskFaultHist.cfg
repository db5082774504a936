SPECIFICATION HSpec
CONSTANTS
  MaxFaults = 2
  Allowed = {"limit", "lift", "rmdir", "full", "shorten", "unlink"}
  Ways = {1, 2, 3, 4, 5, 6, 7, 8}
  Cfs = {1, 3, 4, 100}
  FileNos = {0, 1, 2, 3}
INVARIANT Emit
CHECK_DEADLOCK FALSE
