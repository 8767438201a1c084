SPECIFICATION GSpec
CONSTANTS
  Users = {1, 2, 3}
  MaxShown = 3
  MaxK = 3
  MaxTrain = 5
CHECK_DEADLOCK FALSE
