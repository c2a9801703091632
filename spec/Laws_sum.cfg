SPECIFICATION Spec
CONSTANTS
  Mods = {2, 3}
  n = 1
  k = 2
  p = 2
  Vars = 3
INVARIANTS
  SumLaws
  ProductLaws
CHECK_DEADLOCK FALSE
