SPECIFICATION Spec
CONSTANTS
  R = 2
  C = 2
  Top = 2
  Variant = "lost"
INVARIANTS
  MedianRight
  HistRight
  CumRight
  Multiset
CHECK_DEADLOCK FALSE
