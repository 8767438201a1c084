SPECIFICATION Spec
CONSTANTS
  Systems = {"a", "b", "c"}
  SeedOf <- MCSeedOf
  Kinds = {"reach", "venn", "true"}
  Streams <- MCStreams
  Extra <- MCExtra
  MaxQueries = 3
  MaxForeign = 1
INVARIANTS Fresh Separate Repeatable
PROPERTY GlobalKept
CHECK_DEADLOCK FALSE
