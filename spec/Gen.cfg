CONSTANTS
  Moduli = {2, 3, 5, 7, 101, 0}
  MaxDim = 4
  MaxHard = 4
  Length = 30
SPECIFICATION GSpec
INVARIANT GTypeOK
CHECK_DEADLOCK FALSE
