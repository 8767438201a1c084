SPECIFICATION Spec
CONSTANTS
  N = 7
  R = 3
  Den = 4
  MaxDoublings = 3
INVARIANTS Bracketed DoneIsAnswer OnlyUnachievable
PROPERTIES Terminates CurveKept
CHECK_DEADLOCK FALSE
