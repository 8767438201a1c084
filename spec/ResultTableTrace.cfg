SPECIFICATION TSpec
CONSTANTS
  DataSets = {"d1", "d2"}
  Configs = {"c1", "c2"}
  MaxList = 3
CHECK_DEADLOCK FALSE
