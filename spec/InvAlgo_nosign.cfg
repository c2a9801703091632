SPECIFICATION Spec
CONSTANTS
  Mod = 3
  N = 3
  Variant = "nosign"
INVARIANTS
  Correct
CHECK_DEADLOCK FALSE
