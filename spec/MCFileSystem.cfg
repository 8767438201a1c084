SPECIFICATION Spec
CONSTANTS
  Paths <- MCPaths
  Contents = {"c1", "c2"}
  MaxOps = 4
INVARIANTS WellFormed CloudHasNoDirEntries
PROPERTIES Local1 ReadBack CreateKeeps
CHECK_DEADLOCK FALSE
