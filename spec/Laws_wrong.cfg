SPECIFICATION Spec
CONSTANTS
  Mods = {2}
  n = 2
  k = 2
  p = 2
  Vars = 2
INVARIANTS
  WrongCommutes
CHECK_DEADLOCK FALSE
