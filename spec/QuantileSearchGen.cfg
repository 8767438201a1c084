SPECIFICATION GSpec
CONSTANTS
  N = 6
  R = 3
  Den = 4
  MaxDoublings = 3
CHECK_DEADLOCK FALSE
