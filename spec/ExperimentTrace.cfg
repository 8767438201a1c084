SPECIFICATION TSpec
CONSTANTS
  Trials = {1, 2}
  Workers = {1, 2}
  MaxRuns = 3
  MaxCrashes = 2
  MaxGarbage = 1
  Modes = {"serial", "parallel", "pipeline"}
CHECK_DEADLOCK FALSE
