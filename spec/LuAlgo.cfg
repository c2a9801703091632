SPECIFICATION Spec
CONSTANTS
  Mod = 3
  N = 3
  Variant = "library"
INVARIANTS
  Correct
  ReportsZeroPivot
  Prefix
PROPERTIES
  Terminates
CHECK_DEADLOCK FALSE
