SPECIFICATION GSpec
CONSTANTS
  MaxQ = 3
  MaxK = 3
  Modes = {"serial", "parallel", "pipeline"}
INVARIANTS
  Emit
CHECK_DEADLOCK FALSE
