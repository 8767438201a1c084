SPECIFICATION TSpec
CONSTANTS
  Designs = {}
  Handles = {}
  Slots = {}
  SlotName = {}
  MaxOps = 0
CHECK_DEADLOCK FALSE
