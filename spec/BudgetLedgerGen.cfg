SPECIFICATION GSpec
CONSTANTS
  MaxPubs = 4
  Shares = {1, 2}
  Splits <- MCSplits
  MaxQueries = 2
CHECK_DEADLOCK FALSE
