SPECIFICATION GSpec
CONSTANTS
  Paths <- MCPaths
  Contents = {"c1", "c2"}
  MaxOps = 10
INVARIANTS Emit
CHECK_DEADLOCK FALSE
