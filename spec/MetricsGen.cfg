SPECIFICATION Spec
CONSTANTS
  L = 12
  MaxPoints = 2
  TrueReaches = {1, 3, 6}
  ModelReaches = {0, 3, 12}
INVARIANT Emit
CHECK_DEADLOCK FALSE
