SPECIFICATION VSpec
CONSTANTS
  Users = {1, 2}
  Prices = {1, 2}
  MaxLen = 2
  MaxOps = 0
  NPubs = 2
  MaxFreq = 1
  Noise <- MCNoise
  Cards <- MCCards
INVARIANTS Partition SampleWithin Monotone FullIsCardinality Subadditive Recoverable
CHECK_DEADLOCK FALSE
