SPECIFICATION DSpec
CONSTANTS
  Users = {1, 2}
  Prices = {1, 2}
  MaxLen = 2
  MaxOps = 0
  NPubs = 2
  MaxFreq = 3
INVARIANTS ReachWellFormed EverythingBought NothingBought
PROPERTY MonotoneInSpend
CHECK_DEADLOCK FALSE
