SPECIFICATION Spec
CONSTANTS
  Mod = 3
  N = 3
  Variant = "lastfree"
INVARIANTS
  Correct
  ReportsZeroPivot
CHECK_DEADLOCK FALSE
