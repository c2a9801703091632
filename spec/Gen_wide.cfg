CONSTANTS
  Moduli = {3, 46337, 0}
  MaxDim = 13
  MaxHard = 3
  Length = 24
SPECIFICATION GSpec
INVARIANT GTypeOK
CHECK_DEADLOCK FALSE
