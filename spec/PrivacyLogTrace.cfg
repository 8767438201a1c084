SPECIFICATION TSpec
CONSTANTS
  G = 1
  Eps = {}
  Del = {}
  MaxEvents = 0
CHECK_DEADLOCK FALSE
