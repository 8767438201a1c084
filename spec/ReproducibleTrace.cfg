SPECIFICATION TSpec
CONSTANTS
  DataSets = {"d1", "d2"}
  Configs = {"c1", "c2"}
  Seeds = {1, 2}
  MaxHistory = 4
CHECK_DEADLOCK FALSE
