SPECIFICATION TSpec
CONSTANTS
  Users = {1, 2, 3}
  MaxShown = 4
  MaxK = 3
  MaxTrain = 6
CHECK_DEADLOCK FALSE
