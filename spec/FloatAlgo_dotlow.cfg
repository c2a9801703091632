SPECIFICATION Spec
CONSTANTS Base = 1024  P = 6  Fine = 1  N = 4  Vals = {33, 63}  Signed = FALSE  What = "dot"  Wrong = "lowprecision"
INVARIANT Accurate
CHECK_DEADLOCK FALSE
