SPECIFICATION Spec
CONSTANTS
  Mod = 3
  N = 2
  Bits = 5
  Variant = "oddlost"
INVARIANTS
  Correct
CHECK_DEADLOCK FALSE
