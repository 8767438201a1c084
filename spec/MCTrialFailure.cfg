SPECIFICATION Spec
CONSTANTS
  Trials = {"t1", "t2"}
  Program <- MCProgram
  MaxReruns = 2
INVARIANTS
  RowsRight StoredRight MarkedInProgress
PROPERTIES
  Independent StoredKept
CHECK_DEADLOCK FALSE
