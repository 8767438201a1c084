SPECIFICATION Spec
CONSTANTS
  People = {1, 2, 3, 4}
  MaxCount = 4
  MaxCap = 5
INVARIANTS RoundTrip CapsAgree NonIncreasing
PROPERTY GrowsByOne
CHECK_DEADLOCK FALSE
