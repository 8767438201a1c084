SPECIFICATION Spec
CONSTANTS
  MaxPubs = 4
  Shares = {1, 2}
  Splits <- MCSplits
  MaxQueries = 3
INVARIANTS EverythingLogged NeverOverspent QueriesSpendAll FitWithin
PROPERTY NothingUnlogged
CHECK_DEADLOCK FALSE
