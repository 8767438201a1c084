SPECIFICATION Spec
CONSTANTS
  Names = {"m3"}
  Args <- A
  Spends <- S
  Numbers = {"1", "11"}
  DataSets = {"d1", "d2"}
  MaxStored = 3
INVARIANTS ServedOwn OnePerLocation OnePerTrial
PROPERTIES TemplatesKept
CHECK_DEADLOCK FALSE
