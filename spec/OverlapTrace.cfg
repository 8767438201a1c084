SPECIFICATION TSpec
CONSTANTS
  Users = {}
  Prices = {}
  MaxLen = 0
  MaxOps = 0
  NPubs = 0
  MaxFreq = 0
  Ids = {}
CHECK_DEADLOCK FALSE
