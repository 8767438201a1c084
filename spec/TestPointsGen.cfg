SPECIFICATION GSpec
CONSTANTS
  Pubs = {1, 2, 3}
  Grid = {1, 3}
  Wanted = {1, 150}
  PerPub = 100
  Floor = 100
  Ceil = 2000
  Positions = {0, 1}
INVARIANT Emit
VIEW GView
CHECK_DEADLOCK FALSE
