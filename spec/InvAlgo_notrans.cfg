SPECIFICATION Spec
CONSTANTS
  Mod = 2
  N = 3
  Variant = "notrans"
INVARIANTS
  Correct
CHECK_DEADLOCK FALSE
