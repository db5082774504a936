SPECIFICATION TSpec
CONSTANTS
  MaxFaults = 2
  Allowed = {}
  Ways = {}
  Cfs = {}
  FileNos = {}
CHECK_DEADLOCK FALSE
