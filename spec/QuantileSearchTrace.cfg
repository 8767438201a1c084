SPECIFICATION TSpec
CONSTANTS
  N = 7
  R = 3
  Den = 4
  MaxDoublings = 3
CHECK_DEADLOCK FALSE
