SPECIFICATION Spec
CONSTANTS Base = 3  N = 150
INVARIANT Laws
CHECK_DEADLOCK FALSE
