SPECIFICATION TSpec
CONSTANTS
  Users = {1, 2}
  Prices = {1}
  MaxLen = 2
  MaxOps = 0
  NPubs = 2
  MaxFreq = 2
  Estimates <- MCEstimates
  MaxF = 2
CHECK_DEADLOCK FALSE
