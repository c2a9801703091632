CONSTANTS
  Moduli = {2, 3, 101, 46337}
  MaxDim = 9
  MaxHard = 6
  Length = 24
SPECIFICATION GSpec
INVARIANT GTypeOK
CHECK_DEADLOCK FALSE
