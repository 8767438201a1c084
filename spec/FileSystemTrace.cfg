SPECIFICATION TSpec
CONSTANTS
  Paths = {}
  Contents = {}
  MaxOps = 0
CHECK_DEADLOCK FALSE
