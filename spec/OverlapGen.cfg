SPECIFICATION GSpec
CONSTANTS
  Users = {1, 2}
  Prices = {1, 2}
  MaxLen = 2
  MaxOps = 0
  NPubs = 2
  MaxFreq = 2
  Ids = {11, 12, 13}
CHECK_DEADLOCK FALSE
