SPECIFICATION Spec
CONSTANTS
  Mod = 3
  N = 3
  Variant = "library"
  Values = {}
INVARIANTS
  Correct
  Accounted
  Staircase
PROPERTIES
  Terminates
CHECK_DEADLOCK FALSE
