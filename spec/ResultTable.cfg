SPECIFICATION Spec
CONSTANTS
  DataSets = {"d1", "d2"}
  Configs = {"c1", "c2"}
  MaxList = 3
CONSTRAINT Bounded
INVARIANTS
  ExactlyOnce NothingLost NothingTwice
CHECK_DEADLOCK FALSE
