SPECIFICATION Spec
CONSTANTS Base = 3  N = 60
INVARIANT Laws
CHECK_DEADLOCK FALSE
