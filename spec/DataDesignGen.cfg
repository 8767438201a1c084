SPECIFICATION GSpec
CONSTANTS
  Designs = {"A", "B"}
  Handles = {"h1", "h2"}
  Slots = {"s1", "s2", "s3"}
  SlotName <- MCSlotName
  MaxOps = 4
INVARIANTS Emit
CHECK_DEADLOCK FALSE
