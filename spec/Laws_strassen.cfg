SPECIFICATION Spec
CONSTANTS
  Mods = {0, 2, 4}
  n = 2
  k = 2
  p = 2
  Vars = 2
INVARIANTS
  StrassenIsProduct
  DetMultiplicative
CHECK_DEADLOCK FALSE
