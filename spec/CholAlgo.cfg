SPECIFICATION Spec
CONSTANTS
  Mod = 7
  N = 3
  Variant = "library"
INVARIANTS
  Correct
  Unique
  Prefix
CHECK_DEADLOCK FALSE
