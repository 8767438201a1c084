SPECIFICATION GSpec
CONSTANTS
  DataSets = {1, 2}
  Configs = {1, 2}
  Modes = {"serial", "parallel", "pipeline"}
  MaxLen = 4
INVARIANTS
  Emit
CHECK_DEADLOCK FALSE
