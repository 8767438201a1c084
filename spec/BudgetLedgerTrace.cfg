SPECIFICATION TSpec
CONSTANTS
  MaxPubs = 4
  Shares = {1, 2}
  Splits <- MCSplits
  MaxQueries = 3
CHECK_DEADLOCK FALSE
