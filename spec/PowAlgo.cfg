SPECIFICATION Spec
CONSTANTS
  Mod = 3
  N = 2
  Bits = 6
  Variant = "library"
INVARIANTS
  Correct
  InType
  Depth
PROPERTIES
  Terminates
CHECK_DEADLOCK FALSE
