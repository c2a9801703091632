SPECIFICATION Spec
CONSTANTS Base = 1024  P = 11  Fine = 8  N = 3  Vals = {2041, 2044, 2045, 2047}  Signed = FALSE  What = "var"  Wrong = "onepass"
INVARIANT Accurate
CHECK_DEADLOCK FALSE
