SPECIFICATION TSpec
CONSTANTS
  Levels <- MCLevels
  Samples = 4
  Kinds = {"factorial"}
CHECK_DEADLOCK FALSE
