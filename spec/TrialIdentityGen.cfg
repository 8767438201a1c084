SPECIFICATION GSpec
CONSTANTS
  Names = {"m3"}
  Args <- A
  Spends <- S
  Numbers = {"1", "11"}
  DataSets = {"d1", "d2"}
  MaxStored = 3
INVARIANT Emit
VIEW GView
CHECK_DEADLOCK FALSE
