SPECIFICATION Spec
CONSTANTS
  Mod = 2
  N = 4
  Variant = "library"
  Values = {}
INVARIANTS
  Correct
  Accounted
  Staircase
CHECK_DEADLOCK FALSE
