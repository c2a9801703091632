SPECIFICATION Spec
CONSTANTS
  R = 2
  C = 3
  Top = 2
  Variant = "library"
INVARIANTS
  MedianRight
  HistRight
  CumRight
  Multiset
PROPERTIES
  Terminates
CHECK_DEADLOCK FALSE
