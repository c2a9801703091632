SPECIFICATION Spec
CONSTANTS
  Mod = 2
  N = 3
  Variant = "order"
INVARIANTS
  MinorsRight
CHECK_DEADLOCK FALSE
