SPECIFICATION Spec
CONSTANTS
  R = 1
  C = 5
  Top = 2
  Variant = "library"
INVARIANTS
  MedianRight
  HistRight
  CumRight
  Multiset
PROPERTIES
  Terminates
CHECK_DEADLOCK FALSE
