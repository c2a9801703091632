SPECIFICATION Spec
CONSTANTS Base = 1024  P = 3  Fine = 64  N = 3  Vals = {0, 1, 2, 3, 5, 6, 7}  Signed = TRUE  What = "var"  Wrong = "none"
INVARIANT Accurate
CHECK_DEADLOCK FALSE
