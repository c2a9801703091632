SPECIFICATION Spec
CONSTANTS
  Mods = {0, 5, 6}
  n = 2
  k = 2
  p = 2
  Vars = 1
INVARIANTS
  DetIsPermutationSum
  DetByElimination
  DetDivisionFree
  DetLaws
  AdjugateLaw
  InverseLaw
  PowerLaws
  PowerInverse
CHECK_DEADLOCK FALSE
