SPECIFICATION GSpec
CONSTANTS
  Systems = {"a", "b", "c"}
  SeedOf <- MCSeedOf
  Kinds = {"reach", "venn", "true", "fit", "refused"}
  Streams <- MCStreams
  Extra <- MCExtra
  MaxQueries = 3
  MaxForeign = 1
CHECK_DEADLOCK FALSE
