SPECIFICATION Spec
CONSTANTS
  Mod = 2
  N = 3
  Variant = "noswap"
  Values = {}
INVARIANTS
  Correct
CHECK_DEADLOCK FALSE
