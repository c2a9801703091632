SPECIFICATION Spec
CONSTANTS
  Mod = 2
  N = 4
  Variant = "library"
INVARIANTS
  Correct
  ReportsZeroPivot
  Prefix
CHECK_DEADLOCK FALSE
