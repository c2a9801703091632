SPECIFICATION Spec
CONSTANTS
  Mod = 2
  N = 3
  Variant = "anyrow"
  Values = {}
INVARIANTS
  Correct
  Accounted
  Staircase
PROPERTIES
  Terminates
CHECK_DEADLOCK FALSE
