SPECIFICATION GenSpec
CONSTANTS
  Users = {1, 2, 3}
  Prices = {1, 2, 3}
  MaxLen = 3
  MaxOps = 0
CHECK_DEADLOCK FALSE
