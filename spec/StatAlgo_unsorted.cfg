SPECIFICATION Spec
CONSTANTS
  R = 2
  C = 2
  Top = 2
  Variant = "unsorted"
INVARIANTS
  MedianRight
  HistRight
  CumRight
  Multiset
CHECK_DEADLOCK FALSE
