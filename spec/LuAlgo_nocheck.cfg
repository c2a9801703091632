SPECIFICATION Spec
CONSTANTS
  Mod = 3
  N = 3
  Variant = "nocheck"
INVARIANTS
  Correct
CHECK_DEADLOCK FALSE
