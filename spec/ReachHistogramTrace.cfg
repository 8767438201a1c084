SPECIFICATION TSpec
CONSTANTS
  People = {}
  MaxCount = 0
  MaxCap = 0
CHECK_DEADLOCK FALSE
