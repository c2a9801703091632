SPECIFICATION Spec
CONSTANTS
  Mod = 2
  R = 1
  C = 2
  KMax = 1
  Few = FALSE
  Variant = "library"
INVARIANTS
  SameRight
  FullRight
  ValidRight
PROPERTIES
  Terminates
CHECK_DEADLOCK FALSE
