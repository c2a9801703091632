SPECIFICATION Spec
CONSTANTS
  Mod = 2
  R = 3
  C = 3
  KMax = 1
  Few = TRUE
  Variant = "library"
INVARIANTS
  SameRight
  FullRight
  ValidRight
PROPERTIES
  Terminates
CHECK_DEADLOCK FALSE
