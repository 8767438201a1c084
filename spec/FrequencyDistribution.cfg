SPECIFICATION Spec
CONSTANTS
  N = 4
  Mass = 3
  Den = 4
INVARIANTS MassKept MassNonNegative MeanScaled Agrees NothingShown EverythingShown Dominated CapKept
CHECK_DEADLOCK FALSE
