SPECIFICATION Spec
CONSTANTS
  Mods = {0}
  n = 2
  k = 4
  p = 1
  Vars = 1
INVARIANTS
  StatLaws
  HistLaws
CHECK_DEADLOCK FALSE
