SPECIFICATION Spec
CONSTANTS
  Mod = 2
  N = 3
  Variant = "nocheck"
INVARIANTS
  ReportsSingular
CHECK_DEADLOCK FALSE
