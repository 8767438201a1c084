SPECIFICATION TSpec
CONSTANTS
  Trials = {"t1", "t2"}
  Program = 0
  MaxReruns = 2
CHECK_DEADLOCK FALSE
