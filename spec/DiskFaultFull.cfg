SPECIFICATION HSpec
CONSTANTS
  MaxFaults = 1
  Allowed = {"full"}
  Ways = {1}
  Cfs = {1, 3}
  FileNos = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
INVARIANT Emit
CHECK_DEADLOCK FALSE
