SPECIFICATION Spec
CONSTANTS
  Mods = {2}
  n = 3
  k = 3
  p = 3
  Vars = 1
INVARIANTS
  ConvLaws
CHECK_DEADLOCK FALSE
