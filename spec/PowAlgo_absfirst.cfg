SPECIFICATION Spec
CONSTANTS
  Mod = 3
  N = 2
  Bits = 5
  Variant = "absfirst"
INVARIANTS
  InType
CHECK_DEADLOCK FALSE
