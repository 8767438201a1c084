SPECIFICATION TSpec
CONSTANTS
  L = 60
  MaxPoints = 2
  TrueReaches = {1, 3, 6}
  ModelReaches = {0, 3, 12}
CHECK_DEADLOCK FALSE
