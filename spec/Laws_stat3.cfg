SPECIFICATION Spec
CONSTANTS
  Mods = {4}
  n = 2
  k = 3
  p = 1
  Vars = 1
INVARIANTS
  StatLaws
  HistLaws
CHECK_DEADLOCK FALSE
