SPECIFICATION Spec
CONSTANTS
  Mods = {3}
  n = 2
  k = 2
  p = 2
  Vars = 2
INVARIANTS
  WrongDetSum
CHECK_DEADLOCK FALSE
