SPECIFICATION Spec
CONSTANTS Base = 1024  P = 3  Fine = 64  N = 4  Vals = {0, 1, 3, 5, 7}  Signed = TRUE  What = "mean"  Wrong = "none"
INVARIANT Accurate
CHECK_DEADLOCK FALSE
