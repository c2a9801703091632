SPECIFICATION Spec
CONSTANTS
  Mod = 6
  N = 2
  Variant = "euclid"
  Values = {}
INVARIANTS
  Correct
  Accounted
  Staircase
PROPERTIES
  Terminates
CHECK_DEADLOCK FALSE
