SPECIFICATION Spec
CONSTANTS
  P = 3
  Top = 3
  Q = 2
  Clusters = 2
INVARIANTS UnionBounded AloneIsOwn
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
