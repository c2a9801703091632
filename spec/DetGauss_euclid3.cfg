SPECIFICATION Spec
CONSTANTS
  Mod = 4
  N = 3
  Variant = "euclid"
  Values = {}
INVARIANTS
  Correct
  Accounted
  Staircase
CHECK_DEADLOCK FALSE
