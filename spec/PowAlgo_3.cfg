SPECIFICATION Spec
CONSTANTS
  Mod = 2
  N = 3
  Bits = 5
  Variant = "library"
INVARIANTS
  Correct
  InType
  Depth
CHECK_DEADLOCK FALSE
