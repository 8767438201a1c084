SPECIFICATION Spec
CONSTANTS
  Designs = {"A", "B"}
  Handles = {"h1", "h2"}
  Slots = {"s1", "s2", "s3"}
  SlotName <- MCSlotName
  MaxOps = 5
INVARIANTS KnownIsStored Provenance
PROPERTIES AppendOnly OneAtATime AddOutcome
CHECK_DEADLOCK FALSE
