SPECIFICATION GSpec
CONSTANTS
  Levels <- MCLevels
  Samples = 4
  Kinds = {"factorial"}
  MaxListed = 2
CHECK_DEADLOCK FALSE
