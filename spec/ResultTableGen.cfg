SPECIFICATION GSpec
CONSTANTS
  DataSets = {1, 2}
  Configs = {1, 2, 3}
  Modes = {"serial", "parallel", "pipeline"}
  MaxRuns = 2
INVARIANTS
  Emit
CHECK_DEADLOCK FALSE
