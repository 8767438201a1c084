SPECIFICATION TSpec
CONSTANTS
  N = 4
  Mass = 3
  Den = 4
CHECK_DEADLOCK FALSE
