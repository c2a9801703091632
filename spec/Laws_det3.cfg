SPECIFICATION Spec
CONSTANTS
  Mods = {2, 3}
  n = 3
  k = 3
  p = 3
  Vars = 1
INVARIANTS
  DetIsPermutationSum
  DetByElimination
  DetDivisionFree
  DetLaws
  AdjugateLaw
  InverseLaw
  PowerInverse
CHECK_DEADLOCK FALSE
