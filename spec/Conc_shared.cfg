SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Points = 8
  MaxSwitch = 4
  Shared = TRUE
  Emit = FALSE
INVARIANT NonInterference
CHECK_DEADLOCK FALSE
