SPECIFICATION Spec
CONSTANTS
  G = 4
  Eps = {1}
  Del = {1}
  MaxEvents = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
