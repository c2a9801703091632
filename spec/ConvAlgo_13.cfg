SPECIFICATION Spec
CONSTANTS
  Mod = 3
  R = 1
  C = 3
  KMax = 1
  Few = FALSE
  Variant = "library"
INVARIANTS
  SameRight
  FullRight
  ValidRight
PROPERTIES
  Terminates
CHECK_DEADLOCK FALSE
