SPECIFICATION Spec
CONSTANTS
  Mod = 3
  N = 3
  Variant = "library"
INVARIANTS
  MinorsRight
  Correct
  ReportsSingular
  Expansion
PROPERTIES
  Terminates
CHECK_DEADLOCK FALSE
