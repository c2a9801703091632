SPECIFICATION Spec
CONSTANTS
  Mods = {2}
  n = 2
  k = 2
  p = 2
  Vars = 3
INVARIANTS
  SumLaws
  ProductLaws
  Associative
  InverseUnique
  LUUnique
  MoveLaws
CHECK_DEADLOCK FALSE
