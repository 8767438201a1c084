SPECIFICATION Spec
CONSTANTS
  Users = {1, 2, 3}
  MaxShown = 4
  MaxK = 3
  MaxTrain = 6
INVARIANTS RealAudienceIsACurve GoergIsACurve
CHECK_DEADLOCK FALSE
