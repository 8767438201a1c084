SPECIFICATION Spec
CONSTANTS
  Pubs = {1, 2, 3}
  Grid = {1, 2, 3}
  Wanted = {1, 3}
  PerPub = 2
  Floor = 2
  Ceil = 5
  Positions = {0, 1}
INVARIANTS InBox NotTooMany Promised DoneGrid DoneLatin Reproducible
CHECK_DEADLOCK FALSE
