SPECIFICATION Spec
CONSTANTS
  People = {1, 2, 3, 4}
  MaxCount = 3
  MaxCap = 5
INVARIANTS Emit
CHECK_DEADLOCK FALSE
