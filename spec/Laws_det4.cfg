SPECIFICATION Spec
CONSTANTS
  Mods = {2}
  n = 4
  k = 4
  p = 4
  Vars = 1
INVARIANTS
  DetIsPermutationSum
  DetByElimination
  DetDivisionFree
  DetLaws
CHECK_DEADLOCK FALSE
