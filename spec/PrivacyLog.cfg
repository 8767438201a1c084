SPECIFICATION Spec
CONSTANTS
  G = 3
  Eps = {1, 2}
  Del = {0, 1}
  MaxEvents = 2
INVARIANTS StartsSuffice AtMostTheSum FullCoverIsSum OrderFree
PROPERTY NeverDecreases
CHECK_DEADLOCK FALSE
