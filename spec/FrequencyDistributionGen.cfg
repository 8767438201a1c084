SPECIFICATION GSpec
CONSTANTS
  N = 4
  Mass = 4
  Den = 4
CHECK_DEADLOCK FALSE
