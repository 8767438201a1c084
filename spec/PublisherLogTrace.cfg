SPECIFICATION TSpec
CONSTANTS
  Users = {}
  Prices = {}
  MaxLen = 0
  MaxOps = 0
CHECK_DEADLOCK FALSE
