SPECIFICATION Spec
CONSTANTS
  Mod = 7
  N = 2
  Variant = "nosub"
INVARIANTS
  Correct
CHECK_DEADLOCK FALSE
