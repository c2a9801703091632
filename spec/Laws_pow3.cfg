SPECIFICATION Spec
CONSTANTS
  Mods = {2}
  n = 3
  k = 3
  p = 3
  Vars = 1
INVARIANTS
  PowerLaws
  PowerInverse
  MoveLaws
CHECK_DEADLOCK FALSE
