SPECIFICATION GSpec
CONSTANTS
  Trials = {1, 2}
  Workers = {1}
  MaxRuns = 3
  MaxCrashes = 2
  MaxGarbage = 1
  Modes = {"serial", "parallel", "pipeline"}
INVARIANTS
  Emit
VIEW GView
CHECK_DEADLOCK FALSE
