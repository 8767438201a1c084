SPECIFICATION TSpec
CONSTANTS
  P = 3
  Top = 3
  Q = 2
  Clusters = 2
CHECK_DEADLOCK FALSE
