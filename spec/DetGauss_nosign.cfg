SPECIFICATION Spec
CONSTANTS
  Mod = 3
  N = 3
  Variant = "nosign"
  Values = {}
INVARIANTS
  Correct
CHECK_DEADLOCK FALSE
