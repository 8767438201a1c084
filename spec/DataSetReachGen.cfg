SPECIFICATION GenSpec
CONSTANTS
  Users = {1, 2}
  Prices = {1, 2}
  MaxLen = 2
  MaxOps = 0
  NPubs = 2
  MaxFreq = 3
CHECK_DEADLOCK FALSE
