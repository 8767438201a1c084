SPECIFICATION TSpec
CONSTANTS
  Names = {"a", "b"}
  Pubs = {1, 2, 3}
  Sizes = {1, 4, 5}
  Ratios <- MCRatios
  MaxEntries = 2
  Seeds = {1}
CHECK_DEADLOCK FALSE
