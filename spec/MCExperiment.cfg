SPECIFICATION Spec
CONSTANTS
  Trials = {1, 2}
  Workers = {1, 2}
  MaxRuns = 3
  MaxCrashes = 2
  MaxGarbage = 1
  Modes = {"serial", "parallel", "pipeline"}
INVARIANTS
  OneRowEach NeverForeign TornIsMarked MarkersNameWork NothingPending AllStored OneEvaluationPerRun
PROPERTIES
  ClosedStays Ends
CHECK_DEADLOCK FALSE
