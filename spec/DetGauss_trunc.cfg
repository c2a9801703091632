SPECIFICATION Spec
CONSTANTS
  Mod = 0
  N = 3
  Variant = "trunc"
  Values = {0, 1, 2, 3}
INVARIANTS
  Correct
CHECK_DEADLOCK FALSE
