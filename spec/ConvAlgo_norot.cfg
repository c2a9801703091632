SPECIFICATION Spec
CONSTANTS
  Mod = 2
  R = 2
  C = 2
  KMax = 1
  Few = FALSE
  Variant = "norot"
INVARIANTS
  SameRight
  FullRight
  ValidRight
CHECK_DEADLOCK FALSE
