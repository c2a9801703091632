SPECIFICATION Spec
CONSTANTS
  Mod = 2
  N = 4
  Variant = "library"
INVARIANTS
  MinorsRight
  Correct
  ReportsSingular
  Expansion
PROPERTIES
  Terminates
CHECK_DEADLOCK FALSE
