SPECIFICATION Spec
CONSTANTS
  Levels <- MCLevels
  Samples = 4
  Kinds = {"factorial", "latin"}
INVARIANTS WithinBox FullFactorial EvenLatin OnceEach
CHECK_DEADLOCK FALSE
