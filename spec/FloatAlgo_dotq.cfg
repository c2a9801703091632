SPECIFICATION Spec
CONSTANTS Base = 1024  P = 3  Fine = 1  N = 3  Vals = {0, 5, 7}  Signed = TRUE  What = "dot"  Wrong = "none"
INVARIANT Accurate
CHECK_DEADLOCK FALSE
